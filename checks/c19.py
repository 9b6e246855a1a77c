from core import Check, VERIF
def main():
    ck = Check('C19', rule='guarded value numbering of apply_voronoi on meshes of one or two cells with unknown coordinates, totals and per-cell contributions compared with the measures of the dual interfaces and boxes')
    ck.equiv('voronoi.cpp', extra=['-I' + VERIF + '/probes/model'], opts={'ties': 'free'}, split=True, timeout=300)
    return ck.finish(min_ok=1)
