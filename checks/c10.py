from core import Check, VERIF
def main():
    ck = Check('C10', rule='guarded value numbering of the compiled accessor and field operations on containers in an unknown state against the accessor and field concepts')
    m = ['-I' + VERIF + '/probes/model']
    ck.equiv('accessor.cpp', extra=m, only=lambda n: n != 'validity')
    ck.equiv('accessor.cpp', extra=m, only=lambda n: n == 'validity', opts={'outs': ['arg1']})
    return ck.finish(min_ok=1)
