import re
from core import Check
def dims(dem):
    return int(re.search(r'cartesian_cs<(\d)', dem).group(1))
def spec(nin):
    return lambda dem: (2 * dims(dem), [dims(dem)] * nin, 1, dims(dem))
def lines(dem):
    return 2 * dims(dem), [dims(dem)] * 4, None, 0
N = {'line': ('closest_points_point_line<', spec(3)), 'tri': ('closest_points_point_triangle<', spec(4)), 'tet': ('closest_points_point_tetrahedron<', spec(5)), 'lines': ('closest_points_line_line<', lines)}
# sections and the nested queries they use through their own contract
PLAN = [(('point to point', 'point to line', 'line to line'), ()), (('inclusion',), ()), (('point to triangle', 'mesh boundary'), ()), (('point to tetrahedron', 'quadrilateral'), ('tri',)), (('hexahedron',), ('tet',)), (('line to segment', 'segment to segment'), ('lines',))]
def main():
    ck = Check('C08', rule='guarded value numbering of the compiled closest point, distance and inclusion queries: the answer is one of the admissible pairs and no admissible pair is shorter; nested queries are replaced by their own contract')
    for secs, via in PLAN:
        cut = ['std::basic_ostream', r'bool viennagrid::is_boundary<.*\(viennagrid::mesh<'] + [N[v][0] for v in via]
        ck.equiv('closest.cpp', only=lambda n: n in secs, cut=cut, opts={'ties': 'all' if secs[0] == 'inclusion' else 'free', 'summary': [(re.compile(N[v][0]), N[v][1]) for v in via], 'pure': lambda c, d: 'is_boundary<' in d})
    return ck.finish(min_ok=1)
