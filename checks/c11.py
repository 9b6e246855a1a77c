from core import Check, VERIF
def main():
    ck = Check('C11', rule='guarded value numbering of the compiled quantity transfer with unknown connectivity, filters and values and an arbitrary symmetric averager')
    ck.equiv('transfer.cpp', extra=['-I' + VERIF + '/probes/model'])
    return ck.finish(min_ok=1)
