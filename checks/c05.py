from core import Check
def main():
    ck = Check('C05', rule='guarded value numbering of mesh- and segment-level aggregates and transformations against their definitions, on meshes of fixed element counts with unknown coordinates and connectivity')
    ck.equiv('aggregates.cpp')
    return ck.finish(min_ok=1)
