#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []
WEBSOCKET = None


def p(id, title, statement, over, qtext, why, files, mech, tech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


S = 'src/'
DIFF = 'property-based testing: typed program generator, differential oracle (independent ECMAScript engine)'
p('C01', 'Expressions evaluate as ECMAScript 5 says',
  'Every expression built from literals, variables, members, conditional, comma, assignment and compound assignment, increment/decrement, typeof and the arithmetic, bitwise, shift, comparison, equality and logical operators yields the value and type ECMAScript 5 gives it, with the same order of side effects. The documented deviations hold instead where they exist: with checking on, an undefined operand of + or < and a NaN operand raise a catchable error; typeof gives "array" and "null"; numbers turn into text with 15 significant digits.',
  ['programs', 'inputs'], 'all well-typed expressions of any nesting over numbers, strings, booleans, null, undefined and object/array members, with checking on and off',
  'tests/expr.jsi samples a few dozen expressions of depth one; operator combinations, stack depths and coercions are unbounded.',
  [S + 'jsiEval.c', S + 'parser.y', S + 'jsiLexer.c', S + 'jsiValue.c', S + 'jsiCode.c'],
  [('operator opcodes', S + 'jsiEval.c jsiEvalCodeSub'), ('mixed-type comparison', S + 'jsiValue.c Jsi_ValueCmp'), ('precedence', S + 'parser.y')],
  DIFF, 'random expressions of depth <= 5 compared value by value with node; the reference helpers model the documented deviations. Trusts node and the deviation model.')
p('C02', 'Control flow transfers as ECMAScript 5 says, exceptions included',
  'if/else, for, while, do, for-in, for-of, switch with fall-through and default anywhere, labelled break and continue, try/catch/finally and throw transfer control as ECMAScript 5 says, for any nesting, inside and outside functions. A finally block runs once when its try or catch ends or is left by break, continue or throw (a return leaves the function at once, without it), and the pending jump or exception continues afterwards unless the finally block itself transfers control. A catch receives exactly the thrown value.',
  ['programs'], 'all programs of nested statements with bounded loops',
  'the tests hold a handful of fixed nestings; combinations of jumps through switch, for-in and try need generated programs.',
  [S + 'parser.y', S + 'jsiEval.c', S + 'jsiCode.c'],
  [('jump patching', S + 'jsiCode.c code_reserved_replace'), ('try list', S + 'jsiEval.c OP_STRY..OP_EFINAL, jsiDoThrow'), ('for-in keys', S + 'jsiEval.c OP_KEY/OP_NEXT')],
  DIFF, 'random statement programs (<= 60 statements, nesting <= 4) traced with emit() and compared with node.')
p('C03', 'Functions, closures, this, constructors and arguments behave as in ECMAScript 5',
  'A call binds parameters (with declared defaults), arguments, and this as ECMAScript 5 says for plain calls, method calls, call, apply, bind, new and arrow functions; closures capture variables, not values, and each activation has its own; recursion, prototype inheritance and instanceof follow the prototype chain. A call with fewer or more arguments than a function declares raises a catchable error unless checking is off. Nothing a callee does to its parameters changes the caller\'s variables.',
  ['programs', 'histories'], 'all call graphs of generated functions, argument counts and call forms, and all histories of calls on shared closures and objects',
  'unit tests call each feature once; sharing between activations and interleaved histories of calls are not sampled.',
  [S + 'jsiEval.c', S + 'jsiFunc.c', S + 'jsiProto.c', S + 'jsiObj.c'],
  [('call', S + 'jsiEval.c jsiEvalFunction'), ('scope chain', S + 'jsiFunc.c jsi_ScopeChain*'), ('bind/call/apply', S + 'jsiFunc.c')],
  DIFF, 'programs of 1-6 function scenarios with generated arguments and call histories, compared with node.')
exec(open(os.path.join(D, 'props_more.py'), encoding='utf8').read()) if os.path.exists(os.path.join(D, 'props_more.py')) else None

ids = [q['id'] for q in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(D, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['qtext']),
                                why_tests_cant=q['why'], anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']])), ensure_ascii=False) + '\n')
checks, na = [], []
for q in P:
    if q['na']:
        na.append(dict(property=q['id'], reason=q['na']))
    elif not os.path.exists(os.path.join(D, 'checks', q['id'].lower() + '.py')):
        na.append(dict(property=q['id'], reason='no check has been built for it yet'))
    else:
        checks.append(dict(property=q['id'], quick_cmd='./check.py %s' % q['id'], thorough_cmd='./check.py %s --tier thorough' % q['id'],
                           evidence_file='evidence/%s.json' % q['id'], technique=q['tech'], level='exploration', level_note=q['note']))
m = dict(version=1, setup_cmd='bash vt/build.sh asan', checks=checks, not_applicable=na,
         notes='Every check rebuilds the interpreter from /repo (address sanitizer) in /verif/.build before it runs. ./check.py ID --replay FILE re-runs a replay file.')
with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not claimed')
