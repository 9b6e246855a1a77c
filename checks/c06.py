from core import Check
def main():
    ck = Check('C06', rule='guarded value numbering of the compiled coboundary and neighbour queries against the definition evaluated on the current mesh, for every connectivity of the fixed-size meshes, every change counter and every stale cache content')
    ck.equiv('coboundary.cpp')
    ck.equiv('neighbor.cpp')
    return ck.finish(min_ok=1)
