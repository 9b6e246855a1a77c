from core import Check, VERIF


def main():
    ck = Check('C17', rule='what each writer emits (every number, index, name and the text around it, in order, per file) equals, for every mesh geometry, '
               'quantity and stream state of the probed meshes, what the format prescribes for that mesh')
    ex = ['-I' + VERIF + '/probes/model']
    k = {'extra': ex, 'split': True, 'timeout': 300}
    ck.group(('vtkw.cpp', dict(k, opts={'outs': ['arg0', 'arg1'], 'unroll': 300})), ('dxw.cpp', dict(k, opts={'outs': ['arg0', 'arg1'], 'unroll': 700})))
    return ck.finish(min_ok=1)
