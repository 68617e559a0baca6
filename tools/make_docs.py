"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PE, TS, UT = 'frm/pricing_engine/', 'frm/term_structures/', 'frm/utils/'


def prop(id, title, statement, over, text, why, files, mech, note=None, technique=None, na=None, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                technique=technique, na=na, observe=list(observe))


T = 'deterministic simulation with fault injection: '
P = [
 prop('C01', "Seeded randomness replays exactly and never touches the caller's stream",
  "A simulation or random-number request given a seed returns exactly the same numbers every time, whatever ran before it, runs beside it or was interrupted, and different seeds give different numbers. No call of the library reads, advances, reseeds or replaces the global random streams of numpy or the standard library, so a caller's own draws are unaffected. Results handed out belong to the caller: changing them in place changes no later answer.",
  ['schedules', 'histories', 'inputs', 'fault_sequences'],
  'every seed, size and antithetic choice; every interleaving of up to four clients mixing seeded tapes, Hull-White paths, commodity paths and the caller\'s own use of the global stream; cancellations, memory failures and deadlines at any line',
  'The tests draw one tape in one order in one thread and never look at the global stream before and after.',
  [PE + 'monte_carlo_generic.py', PE + 'hw1f.py', PE + 'clewlow_strickland_1_factor.py'],
  [('local generator built from the seed on each call', PE + 'monte_carlo_generic.py:generate_rand_nbs'), ('seed handed through', PE + 'hw1f.py:HullWhite1Factor.simulate')],
  'Seeded search over interleavings, histories and faults; every answer is compared bit for bit with the same request alone in a fresh world and the global stream with a reference model of the caller\'s own draws. Trusts numpy.',
  T + 'seeded schedules, cancel/memory/deadline faults, refinement against a fresh single-client run and a model of the global stream'),
 prop('C02', 'Every requested path is delivered; antithetic paths are exact mirror pairs',
  "A request for n paths returns exactly n finite, mutually different paths of the requested number of steps and variables, for odd and even n. With antithetic sampling path 2k+1 is the exact mirror image of path 2k (an odd n leaves one unpaired last path), and apart from mirroring no draw is ever repeated. The draws behave as independent standard normals across steps, variables and paths.",
  ['inputs', 'schedules', 'fault_sequences'],
  'every number of steps, variables and paths, odd or even, every seed, with or without antithetic sampling, with other clients interleaved and faults injected',
  'The tests use one even path count and never inspect the tape.',
  [PE + 'monte_carlo_generic.py', PE + 'hw1f.py'],
  [('antithetic interleaving', PE + 'monte_carlo_generic.py:generate_rand_nbs')],
  'Seeded search over sizes, seeds and schedules; pairing, repetition and shape are exact, distribution is tested at 6.5 standard errors or more. Trusts numpy\'s normal generator to be normal only through that test.',
  T + 'seeded search over shapes, seeds and schedules with exact structural invariants and moment tests on the recorded tapes'),
 prop('C03', 'Chunked commodity simulation loses, repeats and mixes no path',
  "A commodity price simulation that is too large for one block of random numbers is processed in blocks, none of which exceeds the configured limit, and still returns every requested path exactly once: each returned path is the one-factor forward-curve model applied to its own shocks, and no two paths coincide. This holds whatever the relation between path count and block size, and when a block's allocation fails or the call is interrupted, the caller gets an error and a retry gives the complete answer.",
  ['inputs', 'configurations', 'schedules', 'fault_sequences'],
  'every path count, number of steps and block limit; blocks drawn while other simulations are interleaved; allocation failure or cancellation in any block',
  'The tests run one size that fits one block; the default block is too large to test the others.',
  [PE + 'clewlow_strickland_1_factor.py', UT + 'settings.py'],
  [('block loop', PE + 'clewlow_strickland_1_factor.py:clewlow_strickland_1_factor_simulate'), ('limit', UT + 'settings.py:MAX_SIMULATIONS_PER_LOOP')],
  'Seeded search with the block limit as a knob; each path is recomputed from the recorded shocks by an independent implementation.',
  T + 'block-size knob, allocation failure in a chosen block, seeded schedules, refinement against an independent per-path model on the recorded tape'),
 prop('C04', 'Simulated paths follow the model step by step for any shock sequence',
  "For any sequence of standard normal shocks, including the rare extreme ones, every simulated step equals the documented scheme: geometric Brownian motion with per-step drift and volatility per underlying, the three Heston schemes in scalar and vector form, the three Hull-White schemes, and the one-factor commodity model. Heston variances never become negative and lognormal prices stay positive, Hull-White discount factors and zero rates are those of the trapezoidal integral of the simulated rate with their path averages, and correlated variates have exactly the requested covariance.",
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'every shock tape (tails, runs, bursts, alternating signs, zeros), model parameters, path and step counts, with clients interleaved',
  'The tests average one seeded tape to two digits; a wrong step in a rare branch or for one path is invisible there.',
  [PE + 'geometric_brownian_motion.py', PE + 'heston.py', PE + 'hw1f.py', PE + 'clewlow_strickland_1_factor.py', PE + 'monte_carlo_generic.py'],
  [('step recursions', PE + 'heston.py:heston_simulate'), ('step recursions', PE + 'hw1f.py:HullWhite1Factor.simulate'), ('step recursion', PE + 'geometric_brownian_motion.py:simulate_gbm_path')],
  'Seeded search over generated shock tapes substituted at the randomness seam; each step is compared with an independent scalar reference at 1e-7 or tighter.',
  T + 'randomness seam feeding adversarial shock tapes, step-by-step refinement against independent scalar models'),
 prop('C05', 'Monte Carlo averages agree with the closed forms for any seed',
  "For any seed and parameters, averages over simulated paths agree with the library's closed forms within statistical error: currency options, lognormal (also shifted) and normal interest rate options, Heston options by every pricing route, Hull-White discount factors, zero-coupon-bond options, optionlets and swaptions, and the mean and variance of geometric Brownian and commodity forward prices. Forward prices are martingales under simulation.",
  ['inputs', 'schedules', 'fault_sequences'],
  'every seed, parameter set, option type and strike in the modelled ranges',
  'Three fixed cases with one seed each are compared in the tests; the other pairs of simulation and closed form are never confronted.',
  [PE + 'garman_kohlhagen.py', PE + 'black76_bachelier.py', PE + 'heston.py', PE + 'hw1f.py', PE + 'geometric_brownian_motion.py', PE + 'clewlow_strickland_1_factor.py'],
  [('closed forms', PE + 'garman_kohlhagen.py:garman_kohlhagen_price'), ('closed forms', PE + 'black76_bachelier.py:black76_price'), ('affine bond formulas', PE + 'hw1f.py')],
  'Seeded search over parameters and seeds; deviations beyond six standard errors plus a stated discretisation allowance are violations. Small biases below that bound are not seen.',
  T + 'seeded Monte Carlo runs as executions, closed forms as oracle with 6-sigma bounds plus stated discretisation allowance'),
 prop('C06', 'A zero curve answers every client alike, in any order and combination',
  "A zero curve answers every query for discount factors, zero rates, forward rates and index rates as its pillars and interpolation method define, wherever the query falls and whether it is given as dates, days or years, one value or many, in any order. Answers come back in the order asked; a date outside the curve gives no value under no extrapolation and the flat extension under flat extrapolation; the pillars are reproduced. Concurrent, interrupted or earlier queries never change an answer.",
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'every pillar set and quoting style, interpolation, extrapolation and compounding choice, every order, duplication and grouping of queries, every interleaving of up to four clients on one curve, every interruption point',
  'No test builds a zero curve beyond importing the module.',
  [TS + 'zero_curve.py', TS + 'zero_curve_helpers.py', 'frm/enums/term_structures.py'],
  [('daily table and interpolation', TS + 'zero_curve.py:ZeroCurve')],
  'Seeded search over histories, schedules and interruptions of clients sharing one curve; answers are compared with an independent interpolation reference and with the same query alone.',
  T + 'clients sharing one curve under seeded schedules with cancellation, refinement against an independent curve model'),
 prop('C07', "The caller's market data is never altered",
  "Building any market object or running any query leaves every table, array, series, list and dictionary the caller passed in exactly as it was: values, columns, order, index and types, also when the call fails or is interrupted. The same inputs can therefore be used again, and give the same object, any number of times and in any order.",
  ['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'],
  'every constructor and query that takes caller data; every interruption point; failing calls; inputs shared by several clients; repeated construction',
  'Tests build each object once from a fresh literal and throw the inputs away.',
  [TS + 'zero_curve.py', TS + 'fx_volatility_surface.py', TS + 'swap_curve.py', TS + 'historical_swap_index_fixings.py', TS + 'bootstrap_helpers.py', TS + 'fx_helpers.py', PE + 'heston.py', UT + 'schedule.py', UT + 'daycount.py'],
  [('copies taken on entry', TS + 'zero_curve.py:ZeroCurve.__post_init__'), ('copies taken on entry', TS + 'fx_volatility_surface.py:FXVolatilitySurface.__post_init__')],
  'Seeded search over inputs, interruption points and interleavings; inputs are fingerprinted bit for bit before and after each call.',
  T + 'crash/cancel at seeded points and shared inputs under seeded schedules, exact fingerprints of all caller data as invariant'),
 prop('C08', 'A currency volatility surface gives the same answer whatever was asked before',
  "The volatility a currency surface returns for an expiry and strike, and the strike it returns for a delta, depend only on the market quotes: not on earlier queries, their order or grouping, concurrent clients, interrupted calls or failed calibrations. At a quoted expiry the quotes are reproduced; between expiries variance accrues at a flat forward rate so total variance never decreases when the quoted ones do not. Quotes whose total variance falls from one expiry to the next get an error, never other volatilities between them. Forward exchange rates are linear in time between their quoted dates. A failed smile calibration gives an explicit error or the honest fallback and is never remembered as an answer.",
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'every sequence and interleaving of queries on one surface, every expiry and strike inside the quoted range, solver failures and interruptions at any point',
  'One test compares one surface with one set of numbers in a fixed order.',
  [TS + 'fx_volatility_surface.py', TS + 'fx_helpers.py', PE + 'volatility_generic.py', PE + 'garman_kohlhagen.py', PE + 'heston.py'],
  [('per expiry smile cache', TS + 'fx_volatility_surface.py:FXVolatilitySurface.interp_vol_surface'), ('flat forward interpolation', PE + 'volatility_generic.py:flat_forward_interp')],
  'Seeded search over query histories, schedules and solver faults; answers are compared with a fresh surface asked only that question, and with quote reproduction and independent flat-forward references.',
  T + 'shared surface, seeded schedules, injected solver failures and cancellations, comparison with fresh surfaces'),
 prop('C09', 'A failing solver never becomes a plausible answer',
  "Implied volatilities, volatility conversions between models, strikes solved from deltas and fitted smile parameters either reproduce the price, delta or quotes they were solved from, or the call fails visibly (an error, or a value that is not finite). This holds when the numerical solver underneath does not converge, stops early, reports failure with a stale point, or raises; a later call without the failure gives the correct answer.",
  ['inputs', 'fault_sequences', 'histories', 'schedules'],
  'every market state in the modelled ranges; non-convergence, early stop, failure flag or exception in any solver call made on the way',
  'Tests solve a handful of well-behaved cases; solvers never fail there.',
  [PE + 'black76_bachelier.py', PE + 'garman_kohlhagen.py', PE + 'sabr.py', PE + 'heston.py'],
  [('reprice check after solving', PE + 'black76_bachelier.py:black76_solve_implied_vol'), ('fallback root search', PE + 'garman_kohlhagen.py:garman_kohlhagen_solve_strike_from_delta')],
  'Seeded search over market states and solver failures; every answer is re-priced by independent formulas.',
  T + 'solver seams with injected non-convergence, early stop, failure flags and exceptions; independent repricing of every answer'),
 prop('C10', 'Hull-White calibration is all-or-nothing and reproduces the curve',
  "After calibrating the drift the Hull-White model reproduces the discount factors of its curve at and between pillars, through both pricing routes and through simulation. The calibration either completes and keeps the best grid tried, or, when interrupted or failing anywhere, leaves the model exactly as it was, able to answer as before and to be calibrated again with the same result.",
  ['crash_points', 'fault_sequences', 'schedules', 'inputs', 'histories'],
  'every interruption point and solver or memory failure inside calibration, every curve and parameter set, readers beside or after the calibration',
  'No test calibrates a Hull-White model.',
  [PE + 'hw1f.py', TS + 'zero_curve.py'],
  [('state restored on failure', PE + 'hw1f.py:HullWhite1Factor.fit_theta'), ('drift spline', PE + 'hw1f.py:HullWhite1Factor.setup_theta')],
  'Seeded search over crash points inside calibration; curve reproduction is checked against the independent curve reference.',
  T + 'crash/exception injection at seeded points of the calibration, state fingerprint and answers compared with an undisturbed model'),
 prop('C11', 'Index rates are right or explicit whatever the fixing feed delivers',
  "Index rates read from fixing histories are the overnight compounded or averaged, or the term, rate that the fixings delivered so far define, whatever order the rows arrive in and however they are split or repeated; the last delivery of a date counts, a row without a value is no fixing, and a day without a fixing uses the last one before it. A period the delivered history does not reach across gets an error or no value, never a rate computed from part of the period. Later deliveries complete such answers, and a reader beside a delivery gets the answer from before or after it.",
  ['fault_sequences', 'histories', 'schedules', 'inputs'],
  'every loss, duplication, reordering and late delivery of fixing rows; every set of periods asked, past, straddling the curve date and forward',
  'No test covers fixings or swap curves.',
  [TS + 'historical_swap_index_fixings.py', TS + 'swap_curve.py', TS + 'zero_curve.py'],
  [('coverage check', TS + 'historical_swap_index_fixings.py:RFRFixings.get_coupon_rates'), ('historical and forward merge', TS + 'swap_curve.py:TermSwapCurve')],
  'Seeded search over simulated feeds (loss, duplication, reordering, delay) and query interleavings, with an independent day-by-day compounding reference.',
  T + 'simulated unreliable fixing feed (loss, duplication, reordering, delay), refinement against a day-by-day reference'),
 prop('C12', 'Holiday calendars are complete or the load fails',
  "Holiday calendars loaded from disk either load completely or fail visibly: a missing, truncated, short-read or unreadable file never yields a calendar with fewer holidays, and once the storage is good again loading succeeds in full. A combined calendar treats a day as a business day exactly when every one of its parts does, whatever the order, repetition or letter case of the parts, and unknown names are rejected.",
  ['fault_sequences', 'crash_points', 'configurations', 'schedules', 'inputs'],
  'every truncation point and I/O error while reading, every combination and order of calendar names, every date in the covered years',
  'One test checks one calendar; storage never fails there.',
  [UT + 'business_day_calendar.py', UT + 'tenor.py'],
  [('load at import', UT + 'business_day_calendar.py'), ('union of holidays', UT + 'business_day_calendar.py:get_busdaycal')],
  'Seeded search over storage faults on (re)loading and over calendar combinations, compared with the union computed from the installed holiday data. Bit corruption inside a complete file is not in scope.',
  T + 'file seam with missing/truncated/short-read/EIO faults on load, refinement against holiday unions'),
 prop('C13', 'Clients of one process never disturb each other or process-wide settings',
  "Any mix of the library's calculations run by several clients in one process gives each client exactly the answers it would get alone in its own process, at any interleaving and after any client was interrupted. No call changes process-wide state: random streams, floating point error handling, warning filters, table display options, environment, working directory, default settings and tables of the library itself.",
  ['schedules', 'histories', 'fault_sequences', 'programs'],
  'every mix and interleaving of calls across all parts of the library, every interruption point',
  'Tests run one call at a time in a fresh process and never look at process-wide state.',
  ['frm/'],
  [('calls keep their state local', PE), ('module tables read only', UT + 'settings.py')],
  'Seeded search over mixed workloads; answers compared with single-call runs in fresh processes, process-wide state fingerprinted.',
  T + 'mixed whole-library workload under seeded schedules and interruptions, refinement against isolated runs'),
 prop('C14', 'Answers do not depend on the process they are computed in',
  "The same inputs give the same answers after a restart and on another day or machine setting: results do not depend on the string hash seed, the time zone, the working directory, the current date, the locale, the order in which modules were imported, or what was loaded from byte-code caches.",
  ['configurations', 'crash_points', 'histories'],
  'every workload, restarted under every combination of hash seed, time zone, clock, working directory and import order',
  'Tests run in a single environment on the day they run.',
  ['frm/'],
  [('no clock, locale or hash order used in results', 'frm/')],
  'Seeded search over environments and restarts; answers of each process are compared bit for bit.',
  T + 'crash and restart into seeded environments (clock, time zone, hash seed, cwd, import order), answers compared across restarts'),
 prop('C15', 'Schedule decoration is idempotent, order independent and safe to retry',
  "A payment schedule's periods follow one another without gap or overlap from effective to termination date, on the dates that its frequency, roll day, business days, stub rules and explicit first and last periods give, and adding payment dates, day counts, year fractions or notionals never changes the periods or one another's columns. The decorations may be applied in any order, repeated, or interrupted and retried, and end in the same schedule; a refused one changes nothing.",
  ['histories', 'crash_points', 'schedules', 'inputs'],
  'every order, repetition and interruption point of decorations, every schedule specification in the modelled ranges',
  'Tests compare a few generated date lists and never decorate, repeat or interrupt.',
  [UT + 'schedule.py'],
  [('column decoration', UT + 'schedule.py:BaseSchedule'), ('date generation', UT + 'schedule.py:make_schedule')],
  'Seeded search over histories and interruption points; the end state is compared with the decoration computed independently and with the undisturbed order.',
  T + 'seeded histories and crash points of schedule decoration, convergence against an independent reference'),
 prop('C16', 'Reported sensitivities match how simulated values move',
  "For any market, strike, option type and seed the sensitivities reported with a price are the rates at which values simulated from the same shocks move when an input moves: delta, vega, theta, gamma and rho of currency options, directly and through a volatility surface, delta and vega of lognormal (also shifted) options and delta, vega and theta of normal options, scaled by the annuity, in the stated market units, for puts and calls alike; numerical sensitivities agree with the analytical ones to within their shift. Intrinsic value is exercise at the forward, discounted like the price, and intrinsic plus time value is the price. One request for many options answers each as if asked alone.",
  ['inputs', 'schedules', 'fault_sequences'],
  'every market state, strike, option type, batch and seed in the modelled ranges, with clients interleaved and interrupted',
  'Tests compare a few prices and deltas at single points; most sensitivities are never confronted with the price they belong to.',
  [PE + 'garman_kohlhagen.py', PE + 'black76_bachelier.py', TS + 'fx_volatility_surface.py'],
  [('greeks and split', PE + 'garman_kohlhagen.py:garman_kohlhagen_price'), ('greeks and split', PE + 'black76_bachelier.py:black76_price'), ('greeks and split', PE + 'black76_bachelier.py:bachelier_price')],
  'Seeded search; each sensitivity is judged against pathwise (gamma: mixed likelihood-ratio) estimates over library-simulated paths at six standard errors and against extrapolated differences of independent prices at 2e-6. Which rate the numerical rho shifts is left open.',
  T + 'seeded Monte Carlo runs with pathwise sensitivities as oracle, independent reference prices bumped, interruptions and interleaved clients'),
 prop('C17', 'Bootstrapped discount factors reprice the quotes',
  "For any market, calendar and day count the discount factors bootstrapped from deposits and futures reprice every quote, whatever the feed delivers: quotes in any order, repeated, missing or without value, under any row labels, with tenors or with given dates in any spelling, from one feed shared by several clients. A deposit grows from its start date factor at exactly its rate, a future at its convexity-adjusted rate from the log-linear curve before it; exchange contracts get the dates of their own month and year. A curve built through the points reads the quotes back. A quote without value or anchor gets an error or no answer, never an invented one.",
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'every set, order, spelling, labelling and repetition of quotes, every calendar and day count in the modelled ranges, with clients interleaved and interrupted',
  'No test calls the bootstrap helpers.',
  [TS + 'bootstrap_helpers.py', UT + 'tenor.py', TS + 'zero_curve.py'],
  [('cash bootstrap', TS + 'bootstrap_helpers.py:bootstrap_cash_rates'), ('futures bootstrap', TS + 'bootstrap_helpers.py:bootstrap_futures'), ('contract dates', TS + 'bootstrap_helpers.py:futures_helper_asx_90day')],
  'Seeded search over deliveries; each discount factor is compared with one computed from the definition of the quote by an independent calendar, day count and interpolation.',
  T + 'a simulated quote feed that reorders, repeats, drops and relabels quotes, shared by interleaved and interrupted clients, with an independent bootstrap as oracle'),
 prop('C18', 'Stripped caplet volatilities reprice quotes and price schedules consistently',
  "For any curve, calendar, day count and set of cap and floor quotes (in any order, spelling and row labelling) the stripped term structure has the caplets the quotes imply, with their forwards, discounting and expiries; it reprices every quote, at the money within the solver's accuracy and elsewhere within the quality of the fit, with admissible smile parameters interpolated between the quoted terms. Every schedule priced from it, by the smiles or by a given volatility, gets prices, intrinsic values and sensitivities consistent with the smiles shown; an equivalent flat volatility gives the same total. Neither stripping nor pricing changes the caller's quotes, schedules or the term structure, also next to other clients, interrupted or with failing solvers.",
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'every market, quote set, schedule and request in the modelled ranges, with clients interleaved, interrupted and solvers failing',
  'No test strips or prices caplets.',
  [TS + 'optionlet.py', PE + 'sabr.py', PE + 'black76_bachelier.py', TS + 'interest_rate_option_helpers.py'],
  [('stripping', TS + 'optionlet.py:Optionlet.__post_init__'), ('pricing', TS + 'optionlet.py:Optionlet._price_optionlets'), ('smile', PE + 'sabr.py:calc_sln_vol_for_strike_from_sabr_params')],
  'Seeded search over histories; every table and answer is compared with an independent reference (dates, forwards, discounting, Black, Bachelier and SABR formulas) and with itself undisturbed.',
  T + 'clients sharing stripped volatilities, schedules and quotes, interleaved and interrupted, with failing solvers, against an independent reference'),
 # ---- not decided by this technique
 prop('N01', 'Day counts and year fractions follow their stated conventions',
  "For any pair of dates each day count convention returns the day count and year fraction of its published definition, for single dates and for arrays alike.",
  ['inputs'], 'every pair of dates and convention', 'Tests sample a few date pairs per convention.', [UT + 'daycount.py'], [('convention branches', UT + 'daycount.py:day_count')],
  na='a pure function of its arguments: no scheduling, time, I/O, randomness or fault for the result to depend on, so simulation has nothing to schedule or inject (its stability beside other clients and restarts is covered by C13 and C14)'),
 prop('N02', 'Closed-form prices obey parity and no-arbitrage bounds',
  "For any inputs put-call parity and no-arbitrage bounds hold for each closed-form pricer.",
  ['inputs'], 'every market state', 'Tests sample single points.', [PE + 'garman_kohlhagen.py', PE + 'black76_bachelier.py'], [('formulas', PE)],
  na='pure formulas; what a simulation can decide, agreement of prices and sensitivities with simulated paths, is C05 and C16, and solving back from prices under failures is C09'),
 prop('N04', 'Tenors and enumeration texts parse to one meaning',
  "Every accepted spelling of a tenor, convention or frequency maps to exactly one meaning and anything else is rejected.",
  ['inputs'], 'every text', 'Tests sample a few texts.', [UT + 'tenor.py', 'frm/enums/helper.py'], [('parsing', UT + 'tenor.py:clean_tenor')],
  na='pure text parsing without any nondeterminism'),
 prop('N05', 'Swap legs and instruments value consistently',
  "A swap is worth the difference of its legs at every valuation date.",
  ['inputs'], 'every swap', 'No test.', ['frm/instruments/leg.py', 'frm/instruments/swap.py'], [('valuation', 'frm/instruments/swap.py')],
  na='the instruments package does not import at this commit, so there is no behaviour to simulate'),
]

READY = set(open(os.path.join(HERE, 'tools', 'ready')).read().split())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: every seam is installed from outside (see DESIGN.md). Replays: bash check.sh <ID> replay <file>.'}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    elif p['id'] in READY:
        man['checks'].append({'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']} quick",
                              'thorough_cmd': f"bash check.sh {p['id']} thorough", 'evidence_file': f"evidence/{p['id']}.json",
                              'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
