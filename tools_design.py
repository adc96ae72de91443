# assembles DESIGN.md: method (hand written, kept) + properties + the rest
import json,sys,os,importlib
sys.path.insert(0,'/verif')
os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
how={
'C01':("the documented node and street set, written down per zone from n alone","all parameters symbolic, so every acceptance branch and asymmetry option is one path; tests build a handful of symmetric cities"),
'C02':("closed formulas for radius, direction, CBD position and street length","geometry over symbolic l, g, Gi, Hi, etha and angles (cos, sin as a pair with c²+s²=1); polynomial identities, the square root of lengths by its defining equation"),
'C03':("a predicate `documented(...)` over the parameters, evaluated in the solver, and the exception class it names","every boundary is symbolic: the solver looks for one value accepted outside its range or rejected inside"),
'C04':("the original city, field by field","export and import both run on symbolic coordinates; a number is a token in the text, `.txt` files are written to a scratch folder"),
'C05':("a predicate over the given lines: duplicate ids, kinds, zones present","all assignments of ids (symbolic integers), kinds and zones"),
'D01':("the documented split as formulas in y, a, alpha, beta","rational identities for all parameters"),
'D02':("a reference matrix replayed beside the real one","histories with symbolic values; the running total is an algebraic identity"),
'D03':("the original matrix","symbolic cells through text and back; wrong shapes and fields listed"),
'N01':("a predicate for drivable sequences over symbolic ids","which ids are equal is decided by the solver, so every pattern of repetition is covered"),
'N02':("a set-based reference network replayed beside the real one","all histories over 22 operations, symbolic numbers of parallel lines; single additions with symbolic node ids"),
'N03':("the documented node sequences computed from zone numbers","symbolic node ids: a wrong node cannot coincide with the right one"),
'N04':("documented ranges as predicates","all boundary values; stored value compared with the given one"),
'N05':("the original sequences and routes","symbolic ids through text and back; awkward names"),
'E01':("an independent list of boarding points, stops and edges with times from the coordinates","coordinates, frequencies, line counts, speeds and access times symbolic: edge times are compared as algebraic expressions"),
'H01':("`World.label` (props/world.py): minimum over all strategies (sets of lines at every stop), by an independent recursion over journeys","for each ordering of symbolic times that the code can distinguish, the label is compared with every alternative strategy by the solver"),
'H02':("all walks along successors, enumerated independently","edge times and frequencies symbolic, so every strategy the network admits is met"),
'H03':("reachability on an independent graph of journeys, together with the mode rule","trips symbolic: 'has trips' is a branch decided by the solver"),
'A01':("the part of the street from which the stop is cheapest, by integrating the indifference point over parallel lines","labels, widths, speeds and valuations symbolic; ties are points of measure zero which only a solver meets"),
'A02':("flow balance per line, direction, stop, and totals per pair","loads are rational functions of symbolic trips, shares and frequencies; balances are identities"),
'A03':("`World` flows: split by frequency, per vehicle","the same networks; ratio of symbolic frequencies"),
'K01':("`K01.oracle`: every passenger's walk, wait, ride and transfers along the elemental paths","all times, tables, valuations symbolic; identity of rational functions, the max of boardings and alightings by case"),
'K02':("formulas per line and stop","table entries symbolic with every pattern of empty stops"),
'K03':("set of streets per mode","idle or running is a branch on symbolic frequencies; symbolic coordinates keep distinct streets distinct"),
'K04':("list of routes and directed streets","symbolic loads and limits: the vectors are compared as expressions"),
'O01':("minimum over the results which satisfy the feasibility predicate","lists of symbolic results: each comparison forks"),
'O02':("a reference of the documented loop; the internal optimisation is an arbitrary function (fresh symbols per call, arguments recorded)","histories of symbolic results and tolerances"),
'O03':("the sum of the three cost classes recomputed from the assignment at the symbolic frequencies; `scipy.optimize.minimize` is replaced by a recorder that evaluates the objective and constraints given to it","objective, constraints and reports compared at a symbolic frequency vector, not at one"),
'O04':("`World` flows of the real assignment, per section","tables over symbolic demand and frequencies"),
'S01':('the same computation on modules of the repository loaded anew in the same path','sessions over symbolic values: a stale or shared value is a different rational function, and a cache with a coarse key needs two values that collide, which the solver finds'),
'C06':("the documented ranges as one predicate per constructor","every number is symbolic, so each boundary and each mismatch of zone numbers is decided by the solver"),
'T01':("the extended graph, the successors, labels, paths and loads themselves, read out of the text entry by entry","labels and frequencies in the text are symbolic terms which the text must reproduce to its decimals, on every strategy the symbolic times bring about"),
'T02':("the city's nodes and streets, the chosen lines' streets and stops, the paths' nodes; the drawing library is a recorder","coordinates symbolic, selections and directions branched on; every strategy of symbolic ride times"),
'O05':("the results table itself, rounded","formatted numbers are tokens; two decimals modelled as |text-value| <= 0.005"),
}
src=open('DESIGN.md').read()
head=src.split('## Properties')[0].rstrip()
o=[head,'','## Properties','',
'For every property: oracle (what the result is compared with), why symbolic execution reaches what tests cannot, bounds, assumptions.',
'The harnesses are `props/<ID>.py`; the functions encoded are those under `functions` in the evidence (with the lines reached).','']
for p in props:
    m=importlib.import_module('props.'+p['id'])
    a,b=how[p['id']]
    o+=['### %s %s'%(p['id'],p['title']),'','- Oracle: %s.'%a,'- Reach: %s.'%b,'- Bounds: %s.'%m.BOUNDS]
    if m.ASSUMPTIONS: o.append('- Outside: %s.'%'; '.join(m.ASSUMPTIONS))
    o.append('')
o.append(open('design_tail.md').read())
open('DESIGN.md','w').write('\n'.join(o))
