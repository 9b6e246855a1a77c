from core import Check, VERIF
def main():
    ck = Check('C20', rule='guarded value numbering of extract_boundary, extract_seed_points and filtered element views on small meshes with unknown coordinates and filters, compared with the boundary facets, connected parts and accepted elements')
    ck.equiv('extract.cpp', extra=['-I' + VERIF + '/probes/model'], split=True, timeout=300)
    return ck.finish(min_ok=1)
