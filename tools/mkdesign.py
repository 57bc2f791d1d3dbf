"""Puts DESIGN.md together: design_head.md, a section per property from the checks themselves, the planted bugs with what caught
them (seeded/*/meta.json, tools/caught.json), the repairs, design_tail.md."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import core
WHY = {
 'C01': 'Precedence, promotion, evaluation order and operand encodings interact: the tests evaluate a few dozen expressions.',
 'C02': 'Jump patching depends on the nesting and on the size of bodies; the tests have no jump over more than a few hundred bytes.',
 'C03': 'Scoping mistakes need a particular arrangement of equal names; generated programs draw from three or four names.',
 'C04': 'Field mix-ups depend on order, count and aliasing.',
 'C05': 'A missing root shows only when a collection falls into one window of a few instructions; here one falls into all of them.',
 'C06': 'Leaks and late finalisation are invisible to tests which look at results only.',
 'C07': 'The tests use the default allocator, which hides every kind of misuse.',
 'C08': 'The guarantee is about all texts, in particular those no test author thinks of.',
 'C09': 'The state after a failure depends on where in which phase the text failed.',
 'C10': 'One forgotten check in one place is enough; the matrix visits every place with every pair of types.',
 'C11': 'The counterpart of C10: nothing legal refused, and nothing accepted that delivers a value of another type.',
 'C12': 'Needs every kind of declaration on both sides of the cut.',
 'C13': 'Schedules: every step boundary is a place where another thread or the host can act.',
 'C14': 'Races need instrumentation and concurrency, the tests have neither.',
 'C15': 'Which instruction the thread is paused at decides what a host call can destroy.',
 'C16': 'Argument passing depends on counts, kinds and the signature form.',
 'C17': 'Off-by-one errors at the growth steps and ends, found by comparison with a list after every operation.',
 'C18': 'Collision patterns are rare in hand-written tests and produced on purpose here.',
 'C19': 'Domains are unbounded (strings of any length and content, 2^64 numbers).',
 'C20': 'Symmetry and transitivity are statements over pairs and triples.',
 'C21': 'Compares what the disassembly says with what the machine then does, for every instruction executed.',
 'C22': 'Positions depend on layout, units and the kind of statement.',
 'C23': 'Exhaustive for short texts, an independent tokeniser for all others.',
 'C24': 'Depends on the distance to the end of the page, size and alignment together.',
 'C25': 'Byte-exact comparison of everything written and read.',
 'C26': 'Limits have to be met exactly, one below and one above, through every construct.',
 'C27': 'The generated functions must be right for every type and name they are instantiated with.',
 'C28': 'Values at and beyond the limits of 64 bits, through every kind of storage.',
 'C29': 'Everything above again with every sanitizer, and differentially with other memory contents, placement and optimisation.',
 'C30': 'A parser that takes one token too many or a check that is skipped shows only on texts nobody writes on purpose; here every neighbour of a program is tried, and an independent front end says which of them are programs.',
 'C31': 'Something shared by accident is invisible as long as one state is used at a time, which is all the tests do; here whole workloads of all other checks overlap, also inside of each other\'s calls.',
 'C32': 'What modules build on (json, delegates, array types, hosts that generate bindings) is the description of declared names; wrong leftovers show only after refused texts, and half-finished descriptions only within a compile.',
}
out = [open(os.path.join(VERIF, 'tools/design_head.md')).read()]
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
out.append('## 2. The properties\n')
for p in props:
    m = importlib.import_module('checks.' + p['id'].lower())
    q, t = core.families(m, 'quick'), m.families('thorough')
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(m.RULE + '\n')
    out.append('*Beyond the tests:* ' + WHY[p['id']] + '\n')
    rows = []
    for f in q:
        d = vars(f)
        fn = [v for v in d.values() if callable(v)]
        doc = ' '.join((fn[0].__doc__ or '').split()) if fn else ''
        nums = [v for v in d.values() if isinstance(v, int)]
        var = [v for v in d.values() if isinstance(v, (tuple, list)) and v and all(isinstance(x, str) for x in v)]
        rows.append('`%s` %s/%s%s%s' % (f.name, nums[0], nums[1], ' [%s]' % ' '.join(var[0]) if var else '', ': ' + doc.rstrip('.') if doc else ''))
    out.append('*Families (work items quick/thorough, builds):* ' + '; '.join(rows) + '.\n')
out.append('## 3. Planted bugs\n')
cf = os.path.join(VERIF, 'tools/caught.json')
caught = json.load(open(cf)) if os.path.exists(cf) else {}
out.append('`seeded/` holds %d changes written from the properties and the code (`tools/plant.py` writes and tries them: applies, builds, 30 tests pass, demonstration passes before and fails after, and runs the check of the property).\n' % len(os.listdir(os.path.join(VERIF, 'seeded'))))
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for b in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    me = json.load(open(os.path.join(VERIF, 'seeded', b, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (b, me['property'], me['needs'].replace('|', '\\|'), caught.get(b, '?')))
out.append('')
n = os.path.join(VERIF, 'tools/design_gaps.md')
if os.path.exists(n):
    out.append(open(n).read())
out.append(open(os.path.join(VERIF, 'tools/design_tail.md')).read())
out.append('## 5. Genuine defects found\n')
fx = [l.strip() for l in open(os.path.join(VERIF, 'known-findings.txt')) if l.startswith('fixed:')]
out.append('%d defects of the original tree were found by these checks and repaired in /repo, each in a commit of its own (`known-findings.txt`). No finding is left unrepaired, so no check prints a KNOWN-FINDING line.\n' % len(fx))
for l in fx:
    out.append('* ' + l[len('fixed: property='):])
out.append('''
False alarms met on the way, where the check was wrong and was corrected: assertions about the number of allocations; order
of dictionary keys that are objects; sign of characters above 127; strictness about lines of errors in multi-line statements (a line from the start of the
statement to the token after it is accepted); JSON spelling of floats (any spelling that reads back as the same number is accepted); prefixes of texts that happen to be
valid programs; programs whose recursion exceeds the stack (now stopped by the reference interpreter's limits).
''')
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out))
