from core import Check
def main():
    ck = Check('C07', rule='guarded value numbering of the compiled boundary queries against the definition evaluated on the current mesh, for every connectivity of the fixed-size meshes, every change counter and every stale flag')
    ck.equiv('boundary.cpp')
    return ck.finish(min_ok=1)
