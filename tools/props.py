#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Memoised results are right, computed once, and always delivered',
     'When any number of threads query a memoised function or value, every caller receives the result of the underlying '
     'calculation for exactly the argument it passed, and every call returns. Between two clears the calculation for a '
     'given argument runs at most once, however the calls overlap. An argument that is not a number is never memoised, '
     'and an instance whose memoisation is switched off returns the same answers while calculating every time.',
     ['schedules', 'histories'],
     'every interleaving of 2-3 threads issuing 1-3 queries over a 2-key domain (plus NaN), at the granularity of lock '
     'operations and of the calculation itself, with every unsynchronised conflicting access reported',
     'The unit tests run free-running OpenMP loops once; a lost wake-up, a double calculation or a premature read needs a '
     'particular preemption that a handful of runs will not hit.',
     ['src/caching.h', 'src/caching.cpp'],
     [('CachedFunction::operator()', 'src/caching.h'), ('CachedValue::operator()', 'src/caching.h')],
     [('cache / in_process', 'results stored and calculations under way', 'src/caching.h')],
     ['return values of the call operator', 'number of times the wrapped function runs'])

prop('C02', 'Clearing a cache takes full effect whenever it happens',
     'Once a clear of one cache, or of all caches, has returned, no query made afterwards is answered from a calculation '
     'that began before the clear; a query that overlaps the clear still gets a genuinely calculated result. Clearing '
     'everything reaches every live cache and no destroyed one, and is safe while other threads query, create and '
     'destroy caches.',
     ['schedules', 'histories'],
     'every interleaving of clears with queries, constructions and destructions by 2-3 threads, and every sequential '
     'history of query/clear/create/destroy operations to a bounded depth',
     'Existing tests clear only while nothing is running; the dangerous cases are a clear that lands in the middle of a '
     'calculation or of a lookup.',
     ['src/caching.h', 'src/caching.cpp'],
     [('ClearCache', 'src/caching.h'), ('Clear_Caches / Add_Cache / Remove_Cache', 'src/caching.cpp')],
     [('caches', 'registry of live caches', 'src/caching.cpp')],
     ['values returned by queries after a clear'])

prop('C03', 'A calculation that fails leaves its cache usable',
     'If the calculation behind a memoised function or value throws, the exception reaches the caller that ran it, no '
     'result is recorded for that argument, and every other caller - already waiting or arriving later - gets a fresh '
     'calculation or the exception of one, never an invented value and never an endless wait.',
     ['schedules', 'fault_sequences'],
     'every placement of a failure among the calculations of 1-3 threads, over every interleaving within the bound',
     'No existing test makes a memoised calculation fail, alone or with waiters.',
     ['src/caching.h'],
     [('CachedFunction::operator()', 'src/caching.h'), ('CachedValue::operator()', 'src/caching.h')],
     [('in_process', 'calculations under way', 'src/caching.h')],
     ['exceptions and values seen by callers'])

prop('C04', 'Dependants hear of every change and replacement exactly once',
     'When a model object changes, each dependant registered with it, and no other, is told exactly once; when it is '
     'replaced, each dependant is told exactly once what the replacement is and from then on depends on the replacement. '
     'This holds for every history of registering, unregistering, changing and replacing, including replacement by an '
     'object that already has dependants of its own, chains of replacements, and registrations made after a '
     'replacement; registering or removing one dependant never affects another, and every such operation returns.',
     ['histories', 'schedules'],
     'every sequence, to a bounded depth, of register/unregister/notify/replace over three objects and several '
     'dependants, compared with a reference model, and every interleaving of two threads doing so',
     'The unit tests walk a few straight-line scenarios; identity clashes between dependants appear only after specific '
     'combinations of replacement and registration.',
     ['src/replaceable.h'],
     [('add_callbacks / remove_callbacks / notify_change / replace', 'src/replaceable.h')],
     [('callbacks', 'registered dependants', 'src/replaceable.h')],
     ['which change and replacement notifications each dependant receives'])

prop('C05', 'Hazard and demand results never go stale',
     'After any sequence of replacing or changing curves, setting collapse and demolition distributions, and replacing '
     'intensity measures, demand relationships or probabilistic functions, every hazard and demand result - rates of '
     'exceedance, derivatives, collapse and demolition rates, conditional distributions - equals what a model freshly '
     'built in the final configuration gives, whatever was queried in between.',
     ['histories'],
     'every sequence of edits to a bounded depth over a model with shared curves, a plain and a two-function demand '
     'relationship, with every choice of what is queried (hence memoised) before each edit',
     'Tests edit one object once and check one result; staleness depends on which results were memoised when which '
     'object was edited, and on edits that follow a replacement.',
     ['src/relationships.h', 'src/relationships.cpp', 'src/functions.cpp', 'src/functions.h', 'src/replaceable.h'],
     [('change and replacement callbacks', 'src/relationships.cpp'), ('SetCollapse / SetDemolition', 'src/relationships.h'),
      ('callbacks on the parameter functions', 'src/functions.cpp')],
     [('memoised rates', 'EDP rate per level, collapse rate, demolition rate', 'src/relationships.h')],
     ['results of every query on the edited model'])

prop('C06', 'Component and building results never go stale',
     'After any sequence of changing or replacing demand relationships, fragility, cost or delay functions and component '
     'groups, adding or removing groups, changing hazard, collapse or demolition, or setting rebuild and demolition '
     'costs, every component and building result equals what a model freshly built in the final configuration gives, '
     'whatever was queried in between. A removed group no longer has any influence.',
     ['histories'],
     'every sequence of edits to a bounded depth over a two-group building, with every choice of what is queried before '
     'each edit, compared with a freshly built model',
     'Tests exercise single edits; a stale total needs a particular result to be memoised before a particular edit '
     'several objects away.',
     ['src/comp_group.cpp', 'src/comp_group.h', 'src/structure.cpp', 'src/structure.h', 'src/replaceable.h'],
     [('change and replacement callbacks', 'src/comp_group.cpp'), ('group and hazard callbacks, Clear_Cache', 'src/structure.cpp')],
     [('memoised costs, delays, rates', 'component-group caches and the annual cost', 'src/comp_group.h')],
     ['results of every query on the edited model'])

prop('C07', 'Model objects can be destroyed in any order',
     'Whatever order the objects of a model are released in, and whatever edits happened before, no operation on the '
     'objects that remain reads or writes freed memory, and their results are those of a model that never contained the '
     'released objects. A released dependant is never called back.',
     ['histories'],
     'every order of releasing the objects of a small model, interleaved with every short sequence of edits and queries, '
     'under an address sanitizer',
     'Tests tear everything down at the end of scope in one order and never edit afterwards.',
     ['src/relationships.h', 'src/functions.cpp', 'src/comp_group.cpp', 'src/structure.cpp', 'src/structure.h', 'src/caching.h', 'src/replaceable.h'],
     [('destructors that unregister', 'src/relationships.h, src/functions.cpp, src/comp_group.cpp, src/structure.h, src/caching.h')],
     [], ['memory errors; results of surviving objects'])

prop('C08', 'Diagnostic context belongs to the thread that set it',
     'The context text reported to a thread consists of the texts that are in scope for it, outermost first: those its '
     'own calls set, and those of the threads that started the parallel regions it runs in - never the text of a '
     'sibling thread - and leaving a scope removes exactly that scope\'s text. This holds for every interleaving, for '
     'successive parallel regions of different sizes, and when a scope is left by an exception.',
     ['schedules', 'histories'],
     'every interleaving of teams of 2-3 threads entering and leaving scopes, and every sequence of serial and parallel '
     'regions of sizes 1-3 to a bounded depth, against a reference stack per thread',
     'Nothing tests the context facility, which every calculation runs through.',
     ['src/context.cpp', 'src/context.h'],
     [('PushText / PopText / GetText / LockContext', 'src/context.cpp')],
     [('threads tree', 'one text stack per position in the thread tree', 'src/context.cpp')],
     ['Context::GetText()'])

prop('C09', 'Parallel and bulk evaluation equals one-at-a-time evaluation',
     'Evaluating a whole vector of arguments, or a building whose groups are evaluated in parallel, gives element for '
     'element the results of evaluating them one at a time in a fresh model, for every number of threads and every '
     'interleaving; and no two threads of an evaluation touch shared data without synchronisation, interpolation tables '
     'and integration statistics included.',
     ['schedules', 'configurations'],
     'every interleaving within a preemption bound, for teams of 1-3 threads, of each bulk operation and of '
     'concurrent single queries on shared objects, with a happens-before race check on every execution',
     'The regression runs execute one schedule of the parallel loops and compare final numbers only.',
     ['src/relationships.cpp', 'src/structure.cpp', 'src/comp_group.cpp', 'src/functions.cpp', 'src/maq.cpp', 'src/pyslatcore.cpp'],
     [('parallel loops and sections', 'src/relationships.cpp, src/structure.cpp, src/comp_group.cpp'),
      ('critical sections around statistics', 'src/maq.cpp')],
     [], ['bulk results', 'unsynchronised accesses'])

prop('C10', 'Integrals are accurate when reported successful, and bounded in effort',
     'For a smooth integrand on the positive axis that the search locates, a result reported as successful agrees with the true '
     'integral to within a small multiple of the requested tolerance, for every search method and tolerance; when the '
     'permitted number of evaluations does not suffice, or the integration meets a value that is not a number, the result '
     'is reported as unsuccessful and is not a number; and an integrand for which the search finds nothing gives a '
     'successful zero. The search never evaluates the integrand much more often than its limit and the integration '
     'never more often than its own, and the evaluation count returned accounts for the evaluations made.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every combination of an integrand family (shapes, locations and widths, including narrow and distant ones), search '
     'method, tolerance and limits, and every position at which the integrand yields a not-a-number value',
     'Tests integrate a handful of functions with the default settings.',
     ['src/maq.cpp', 'src/maq.h'],
     [('MAQ', 'src/maq.cpp'), ('the five search methods', 'src/maq.cpp')],
     [], ['integral, success flag and evaluation count; calls to the integrand'])

prop('C11', 'Integration settings and statistics say what is true',
     'Each integration setting reads back the last valid value set or its default after a reset, invalid values are '
     'ignored, settings are independent of each other, and integration obeys the settings in force. After any sequence '
     'of integrations, from any threads, the statistics count exactly the calls, successes, failures, failed searches, '
     'not-a-number stops and evaluations that happened since they were last reset.',
     ['histories', 'schedules'],
     'every sequence of set/reset/use-default/integrate operations to a bounded depth against a reference record, and '
     'every interleaving of integrations in two threads',
     'Tests set a value and read it back; counters are only printed.',
     ['src/maq.cpp', 'src/maq.h'],
     [('IntegrationSettings', 'src/maq.cpp'), ('statistics updates', 'src/maq.cpp')],
     [('stats', 'the counters', 'src/maq.cpp')],
     ['getters', 'get_statistics()', 'format_statistics()'])

prop('C12', 'Lognormal distributions keep their laws under every construction',
     'A lognormal distribution reports the same mean, median, standard deviation and log-moments whichever valid pair of '
     'parameters it was built from; exceedance and non-exceedance probabilities are complementary, monotonic and inverted '
     'by the quantile. Scaling multiplies the mean and keeps the log-dispersion; a sum has the sum of the means and of '
     'the variances; a weighted mixture has the mixture\'s first two moments; a zero mean stays zero, and mismatched '
     'weights are refused.',
     ['inputs'],
     'every combination of parameters from a grid spanning many decades, every constructor, and every list of up to four '
     'distributions with every weight pattern from a small set',
     'Tests check a few parameter pairs; the laws quantify over all of them and over their compositions.',
     ['src/lognormaldist.cpp', 'src/lognormaldist.h'],
     [('constructors, accessors, AddDistributions, AddWeightedDistributions, scaling', 'src/lognormaldist.cpp')],
     [], ['accessors and probabilities'])

prop('C13', 'Curves evaluate to their definition everywhere',
     'Every deterministic curve returns its defining formula: the hyperbolic law up to its asymptote and zero beyond, the '
     'power law, and linear or log-log interpolation that passes through every table point, stays between neighbours, '
     'and holds the end values outside the table; derivatives agree with the curve\'s slope. A probabilistic function '
     'answers mean, median, log-mean, dispersion, exceedance and quantile of the one lognormal distribution that its two '
     'parameter curves specify at each point, for each of the allowed parameterisations, and refuses invalid ones.',
     ['inputs', 'histories'],
     'every small table over a value alphabet, every query position class (below, at, between, above), every order of '
     'queries (the lookups keep state), and every parameterisation over a grid of parameter curves',
     'Tests evaluate one table and one parameterisation in one query order.',
     ['src/functions.cpp', 'src/functions.h'],
     [('Evaluate / DerivativeAt', 'src/functions.cpp'), ('LogNormalFn', 'src/functions.cpp')],
     [], ['ValueAt, DerivativeAt, Mean, Median, MeanLn, SD, SD_ln, P_exceedence, X_at_exceedence'])

prop('C14', 'Damage-state probabilities are a probability distribution',
     'For every valid fragility function and demand level, the probability of reaching each damage state is that of its '
     'onset distribution, grows with demand, and - where the onset curves do not cross - falls from each state to the next '
     'worse one; the probabilities of each state being the worst reached are non-negative, sum to the probability of '
     'reaching the first state, and are the differences of successive exceedances. Function definitions that are empty or '
     'whose states are not in increasing order are refused.',
     ['inputs'],
     'every ordered and unordered list of up to four onset distributions from a parameter grid, at every demand level of a '
     'grid that straddles them',
     'Tests use one fragility function.',
     ['src/fragility.cpp', 'src/fragility.h'],
     [('FragilityFn', 'src/fragility.cpp')], [], ['pExceeded, pHighest, n_states, DamageStates'])

prop('C15', 'Loss functions price damage linearly, scaled by quantity and adjustment',
     'The loss for given damage-state probabilities is the probability-weighted mixture of the state losses, multiplied by '
     'the number of components and by the adjustment factor; with quantity-dependent unit costs the unit cost is the upper '
     'figure up to the lower quantity, the lower figure from the upper quantity on, and on the straight line between, '
     'never outside the two. Wrong-sized probability lists and empty definitions are refused, and repeated or concurrent '
     'queries for different quantities do not influence each other.',
     ['inputs', 'histories'],
     'every list of up to three state losses from a grid, every probability pattern, every count around the quantity '
     'thresholds, every adjustment factor of a set, in every order of two or three queries',
     'Tests price a few hand-picked cases.',
     ['src/loss_functions.cpp', 'src/loss_functions.h'],
     [('CalculateLoss / CalculateUnadjustedLoss', 'src/loss_functions.cpp'), ('BiLevelLoss', 'src/loss_functions.cpp')],
     [], ['CalculateLoss'])

prop('C16', 'Fates partition every shaking level and rates integrate over the hazard',
     'At every shaking level the probabilities of collapse, of demolition without collapse, and of repair add up to one; '
     'without a collapse or demolition model the corresponding probability and rate are zero. Collapse and demolition rates '
     'and the rate of exceeding a demand are the integrals of the corresponding probability over the hazard curve, where '
     'the demand counts as exceeded whenever the building is not repairable; exceedance rates never increase with the '
     'demand level. A two-function demand relationship answers every question from whichever function has the larger mean '
     'at that shaking level.',
     ['inputs', 'configurations'],
     'every combination of hazard curve, collapse and demolition model, demand relationship and level from small sets, '
     'compared with an independent quadrature',
     'Tests compare a few values of one model.',
     ['src/relationships.cpp', 'src/relationships.h'],
     [('IM', 'src/relationships.h'), ('EDP::calc_lambda', 'src/relationships.cpp'), ('CompoundEDP', 'src/relationships.cpp')],
     [], ['lambda, pCollapse, pDemolition, pRepair, CollapseRate, DemolitionRate, P_exceedence'])

prop('C17', 'Component-group results are expectations over demand and hazard',
     'For every component group the cost and delay given demand are its loss function applied to its damage probabilities, '
     'quantity and adjustment factor; the mean and dispersion of cost and delay given shaking are those of that quantity '
     'mixed over the demand distribution; the annual cost, damage-state rates and cost-exceedance rates are the integrals '
     'of the conditional results over the hazard curve. Expected values are proportional to quantity and adjustment '
     'factor; a group with no components costs nothing, and cost and delay never influence each other.',
     ['inputs', 'configurations'],
     'every combination of demand relationship, fragility, loss functions (or none), quantity and adjustment factors from '
     'small sets, at every level of a grid, compared with an independent quadrature and across configurations',
     'Tests and the regression model fix one configuration.',
     ['src/comp_group.cpp', 'src/comp_group.h'],
     [('E_cost_IM, SD_ln_cost_IM, E_delay_IM, E_annual_cost, lambda_cost, Rate, pDS_IM', 'src/comp_group.cpp')],
     [], ['the group\'s query methods'])

prop('C18', 'Building costs combine groups and fates without loss or double counting',
     'For every building the repair cost is the sum of its groups, each counted once however the groups are ordered; the '
     'total cost at a shaking level has the mean and variance of the mixture of repair, demolition and rebuild costs '
     'weighted by the fate probabilities; the costs by fate are the weighted shares of that mean; the annual cost is the '
     'hazard integral of the total, and the present value over a period is the annual cost times the annuity factor, zero '
     'for zero years, and growing with the period. A group for a different hazard is refused without changing the '
     'building.',
     ['inputs', 'configurations', 'histories'],
     'every multiset and order of up to three groups, every collapse/demolition configuration, rebuild and demolition '
     'cost, shaking level, period and discount rate from small sets, against reference formulas',
     'Tests use one building at a few levels.',
     ['src/structure.cpp', 'src/structure.h'],
     [('Cost, TotalCost, CostsByFate, DeaggregatedCost, AnnualCost, E_cost, AddCompGroup, RemoveCompGroup', 'src/structure.cpp')],
     [], ['the building\'s query methods'])

prop('C19', 'Redefining a name in a script updates everything that uses it',
     'In the Python interface and the script language a name denotes, within its own kind of object, the latest definition '
     'given for it: after any sequence of definitions, redefinitions and queries, every result obtained through a named object '
     'equals that of a fresh model in which each name was defined once, with its last definition. Redefining an intensity '
     'measure starts it anew, without the collapse and demolition of its predecessor.',
     ['histories', 'programs'],
     'every sequence of definitions and redefinitions to a bounded depth over the kinds of named objects, with queries at '
     'every position, compared with a model built from the last definitions only',
     'The scripts in the repository define each name once.',
     ['src/pyslat.py', 'src/pyslatcore.cpp', 'src/replaceable.h'],
     [('registries and replacement on redefinition', 'src/pyslat.py'), ('replace wrappers', 'src/pyslatcore.cpp')],
     [('defs', 'name registries', 'src/pyslat.py')], ['results through the Python objects'])

prop('C20', 'Recorders write exactly the requested results',
     'A recorder writes one line per requested point, in the requested order, holding the point and the requested columns, '
     'each equal to the value the corresponding direct query returns to the digits shown, to the requested destination; appending keeps what was '
     'there, starting anew replaces it, and running a recorder twice or running several recorders never mixes their output.',
     ['inputs', 'configurations', 'histories'],
     'every recorder kind with every subset and order of its columns, every way of giving the points, and every destination '
     'option, compared with direct queries',
     'The regression scripts use each recorder in one configuration.',
     ['src/pyslat.py'],
     [('recorder classes', 'src/pyslat.py')], [], ['files and text written by recorders'])

prop('C21', 'A SLAT script means the same as the corresponding Python calls',
     'Every well-formed script builds exactly the model that the corresponding sequence of Python calls builds: each command '
     'form with each of its options, in any layout and with comments, passes the arguments as written, in the documented '
     'order; variables and embedded expressions stand for their values; and a script that does not follow the grammar, or '
     'refers to an undefined name where one is required, is rejected with an error rather than silently misread.',
     ['programs', 'inputs'],
     'every command form of the language with every combination of its options over a small literal alphabet, every one-token '
     'change to a set of scripts, every layout at every place, every short program, number, string and path to a variable, '
     'compared with an independent reader of the language and the model it stands for',
     'The regression scripts exercise a fraction of the grammar, once.',
     ['src/SlatInterpreter.py', 'src/slatParser.g4', 'src/slatLexer.g4', 'slat-lang.org'],
     [('listener', 'src/SlatInterpreter.py'), ('grammar', 'src/slatParser.g4, src/slatLexer.g4')], [],
     ['calls made on the Python layer; results of the model built'])

prop('C22', 'The Python binding returns what the core computes',
     'Every function and query exposed to Python returns, for every supported combination of parameters and options, the '
     'values that the C++ core gives for the same model, in the order requested; bulk calls return one value per argument; '
     'unsupported combinations are refused rather than answered with something else.',
     ['inputs', 'configurations'],
     'every exposed factory, parameterisation and query over small models and argument lists, compared with values computed '
     'through the C++ interface in a separate process',
     'Regression runs compare end results of one script to six digits.',
     ['src/pyslatcore.cpp', 'src/pyslatcore.h', 'src/pyslatcore.i', 'src/pyslat.py'],
     [('wrappers', 'src/pyslatcore.cpp')], [], ['values returned to Python'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    import re
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
