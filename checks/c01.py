from core import Check
EXACT = ['real arithmetic (rounding not modelled), finite inputs, no NaN']
def main():
    ck = Check('C01', rule='guarded value numbering of each vector operation against its definition, for all coordinate values', assumptions=EXACT)
    ck.equiv('vec.cpp')
    return ck.finish(min_ok=1)
