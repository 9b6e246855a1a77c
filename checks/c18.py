from core import Check, VERIF


def main():
    ck = Check('C18', rule='the mesh, segmentation and quantities a reader builds equal, for every content (every coordinate, index, count and read failure) of the '
               'described shape, those that content describes; unreadable or inconsistent content throws')
    ex = ['-I' + VERIF + '/probes/model']
    make = 'make_element_with_id'
    o2 = {'outs': ['arg0', 'arg1'], 'unroll': 300}
    o3 = {'outs': ['arg0', 'arg1', 'arg2'], 'unroll': 300}
    k = {'extra': ex, 'split': True, 'timeout': 300}
    ck.group(
        ('vtkr.cpp', dict(k, opts=dict(o3, unroll=1000), defs=['VG_CAP=14', 'VG_MAPCAP=14'], only=lambda s: s == 'hexahedra')),
        ('vtkr.cpp', dict(k, opts=o3, only=lambda s: s != 'hexahedra')),
        ('vtkf.cpp', dict(k, opts=o2)),
        ('netgen.cpp', dict(k, opts=o2, only=lambda s: s != 'reject')),
        ('netgen.cpp', dict(k, opts=dict(o2, pure=lambda c, d: make in d), cut=[make], only=lambda s: s == 'reject')))
    return ck.finish(min_ok=1)
