from core import Check, VERIF
def main():
    ck = Check('C15', rule='guarded value numbering of the compiled iterator, range, view, handle and ID operations on containers of known size and unknown contents, compared with the sequence of elements')
    ck.equiv('iter.cpp', extra=['-I' + VERIF + '/probes/model'])
    return ck.finish(min_ok=1)
