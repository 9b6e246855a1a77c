from core import Check, VERIF
def main():
    ck = Check('C14', rule='guarded value numbering of the compiled deletion functions on a mesh of two cells with an unknown choice of what is erased, compared with the remaining elements a user must see, and with what elements created afterwards must share')
    ck.equiv('erase.cpp', extra=['-I' + VERIF + '/probes/model'], timeout=200)
    return ck.finish(min_ok=1)
