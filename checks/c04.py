from core import Check
def main():
    ck = Check('C04', rule='guarded value numbering of volume, centroid, circumcenter, normal_vector and surface of one element against their geometric definitions, vertex handles and coordinates unknown')
    ck.equiv('measures.cpp')
    return ck.finish(min_ok=1)
