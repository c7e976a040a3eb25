''' Write MANIFEST.json from properties.jsonl and the props/ modules that exist. '''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'P01': 'property-based testing against a glued-polygon reference model; mutation of inputs for rejection',
    'P02': 'property-based testing against a strand-in-square reference model; stateful flip histories',
    'P03': 'property-based testing against a strand-tracing reference model',
    'P04': 'property-based testing with a validity predicate (strand tracing) and a size bound',
    'P05': 'property-based testing against a lifted-path intersection oracle; metamorphic relations',
    'P06': 'property-based testing against a path-surgery model of right Dehn twists; metamorphic relations',
    'P07': 'property-based testing, metamorphic relations (square is a boundary twist, braid, naturality)',
    'P08': 'property-based testing of groupoid laws; word problem against action on arcs and known relations',
    'P09': 'property-based testing against linear algebra and boundary-map models',
    'P10': 'round-trip property-based testing over generated objects',
    'P11': 'differential property-based testing (rewritten vs. original mapping)',
    'P12': 'property-based testing against brute-force orders and known periodic classes',
    'P13': 'metamorphic property-based testing (conjugates, invariants)',
    'P14': 'property-based testing against brute-force closure and Riemann-Hurwitz invariants',
    'P15': 'property-based testing against a model of cutting along strands; round trip',
    'P16': 'property-based testing against a model of complementary regions; naturality',
    'P17': 'metamorphic and model-based property-based testing (graph isomorphism of cut surfaces)',
    'P18': 'grammar-based generation against a reference word parser; malformed-word fuzzing',
    'P19': 'enumeration of surfaces with generated relation instances',
    'P20': 'property-based testing against brute-force isometry search',
    'P21': 'property-based testing of piecewise-linear pieces and exact eigen-equations',
    'P22': 'metamorphic property-based testing (twists of known power)',
    'P23': 'model-based property-based testing against multiset sums and strand components',
    'P24': 'property-based testing against a list model of permutations',
    'P25': 'model-based property-based testing against lists, and against descriptions for huge programs',
    'P26': 'stateful model-based testing of histories; differential testing of utilities',
    'P27': 'property-based testing with validity predicates from strand tracing',
    'P28': 'property-based testing with a recording canvas and strand counts',
    'P29': 'property-based testing against a reference breadth-first search',
    'P30': 'stateful query histories compared with fresh objects',
    'P31': 'property-based testing against brute-force enumeration of arcs, cliques and balls',
    'P32': 'property-based testing against strand models of neighbourhoods; metamorphic relations',
}
NOTE = {}
REASON = {
    'P90': 'Curve complex distances and tight geodesics of length over two need curver.kernel.curvegraph code that is far too slow for generated search (even S_{1,2} examples take minutes) and there is no feasible independent oracle for distances >= 3; the local constructions it is built from are covered by P27.',
    'P91': 'The classification of infinite order classes runs the same distance computations; no generated search finishes and no independent oracle exists beyond S_{1,1}; the decidable parts (periodicity, orders, dilatations on S_{1,1}) are covered by P12 and P21.',
}
DEFAULT_NOTE = ('Generated-input search: no violation in the cases explored, at the sizes and distribution recorded in the evidence file. '
                'Trusts the reference models in ref/ (written from the definitions, no curver code) and CPython/numpy.')


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
            checks.append({
                'property': pid,
                'quick_cmd': f'bash check.sh {pid}',
                'thorough_cmd': f'bash check.sh {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json',
                'technique': TECH[pid],
                'level': 'exploration',
                'level_note': NOTE.get(pid, DEFAULT_NOTE),
            })
        else:
            na.append({'property': pid, 'reason': REASON.get(pid, 'Not claimed yet: its check is still being written (see DESIGN.md).')})
    data = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
            'notes': 'No hooks: every check uses the public API of /repo/curver, imported from the working tree.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


main()
