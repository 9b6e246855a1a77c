from core import Check, VERIF
def main():
    ck = Check('C12', rule='guarded value numbering of the compiled element creation functions on small meshes: the second cell takes its vertices from an unknown choice; numbers of elements, identity of shared boundary elements, vertex order, IDs and segment membership against the definition')
    m = ['-I' + VERIF + '/probes/model']
    ck.equiv('create.cpp', extra=m)
    ck.equiv('create3.cpp', extra=m, timeout=200)
    return ck.finish(min_ok=1)
