from core import Check
EXACT = ['real arithmetic (rounding not modelled), finite inputs, no NaN']
def main():
    ck = Check('C02', rule='guarded value numbering of point construction, arithmetic, coordinate conversion and ordering against their definitions, for all coordinate values', assumptions=EXACT)
    ck.equiv('points.cpp')
    return ck.finish(min_ok=1)
