from core import Check, VERIF
def main():
    ck = Check('C13', rule='guarded value numbering of the compiled mesh copy, assignment, clear and filtered copy on a mesh of two cells with unknown connectivity, coordinates, filter and segments, compared with the facts a user sees of the source')
    ck.equiv('copy.cpp', extra=['-I' + VERIF + '/probes/model'], timeout=200)
    return ck.finish(min_ok=1)
