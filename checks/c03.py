from core import Check
def main():
    ck = Check('C03', rule='constant propagation of the boundary element generators against the reference orientation tables of the manual')
    ck.equiv('topo.cpp', opts={'outs': {'arg4', 'arg5'}})
    return ck.finish(min_ok=1)
