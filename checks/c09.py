from core import Check, VERIF
def main():
    ck = Check('C09', rule='guarded value numbering of the compiled segment operations on a segmentation in an unknown state (one unknown membership bit per element and segment) against the set operations they stand for')
    ck.equiv('segments.cpp', extra=['-I' + VERIF + '/probes/model'])
    return ck.finish(min_ok=1)
