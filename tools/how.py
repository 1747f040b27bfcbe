"""How each property is decided (section 2 of DESIGN.md)."""

HOW = {
'C01': ('Each RandomVariable class is built with symbolic parameters and limits (NaN limits are a choice); `inverse_transform`/`cdf` run symbolically; scipy\'s cdf/ppf are uninterpreted increasing bijections with scale/location rules.',
        'For the quantile: G(x) = Ga + u (Gb - Ga) for the untruncated CDF G, a <= x <= b; for the CDF: clamped (G - Ga)/(Gb - Ga). Piecewise-linear: point lies on the segment; validity decided from the definition.'),
'C02': ('Probabilities, observations, draws and the sample size are symbolic; array subscripts with symbolic integers fork over their range.',
        'Category i iff cumulative(i-1) <= u < cumulative(i); observation floor(u n); cyclic order for any size; the uniform array given to the variable is unchanged.'),
'C03': ('`generate_sample` runs with a stub generator whose permutation is a symbolic bijection and whose uniforms are arbitrary. Correlation is a linear map of the normal scores: it is observed on the unit vectors, with the Cholesky recursion on symbolic correlations (concrete SVD for listed singular matrices).',
        'One value per stratum for every permutation and draw; the Gram matrix of the images of the unit vectors equals the prescribed matrix entry by entry, by variable *name*.'),
'C04': ('`scale_distribution` and `_convert_marginal_params` run on symbolic factors, counts, parameters; text tokens carry symbolic numbers through the `y,y|x,x` form.',
        'Quantile of the converted variable = factor x quantile of the original at the same symbolic draw; round trip; unit-less and empirical rows unchanged.'),
'C05': ('A symbolic unit table replaces the JSON contents (the parser itself is executed); values are symbolic.',
        'value x from / to, both directions and chained; the built-in table against SI definitions written down independently.'),
'C06': ('save_* and load_* run end to end on frames of symbolic cells, through real CSV files with text tokens.',
        'Stored value x unit factor = internal value, per label; values after loading = before; refusal of missing units.'),
'C07': ('Symbolic values, factors, operands; symbolic choices of labels, ranges and limit states.',
        'The set of selected entries is recomputed from the specification; each selected entry is multiplied once per matching row, all others are unchanged. Capacities: quantile of the adjusted distribution at the same draw.'),
'C08': ('`_get_required_demand_type`, `_assemble_required_demand_data` and `calculate` on symbolic demands; a deterministic symbolic capacity c turns the demand seen by the component into the damage state (demand > c), for all c.',
        'The demand selected by the definition (location + offsets, direction, maximum x multiplier, expression evaluated by an independent evaluator).'),
'C09': ('`_create_dmg_RVs`, `_generate_dmg_sample`, `_evaluate_damage_state` with symbolic draws, medians, weights, demands.',
        'Highest reached limit state by number; interval of the weights for the damage state; capacity equals the quantile of its family at the draw of its block.'),
'C10': ('`prepare_dmg_quantities`, `_get_pg_batches`, full `calculate` with symbolic quantities, block counts and states.',
        'Sum over states = component quantity; same result for every batch size; frequencies counted independently.'),
'C11': ('`perform_dmg_task` and full processes on symbolic integer damage states (-1..2) of every column.',
        'A three-line re-statement of the task semantics evaluated per realization with if-then-else terms.'),
'C12': ('`load_model_parameters` of both models on tables with symbolic values and units.',
        'Each component\'s row equals the converted row of the first source that has it, cell by cell, NaN where that source has none; the exact missing list.'),
'C13': ('`RepairModel_DS.calculate` on symbolic quantities, y-values, dispersions and draws; `np.interp` forks over the segment.',
        'quantity x f(aggregated quantity) x own deviation, with the aggregation set computed from the options; draws identified by their symbols.'),
'C14': ('`RepairModel_LF.calculate` on symbolic demands and functions (3 points, text tokens).',
        'Function value at the selected demand x quantity; per block deviations are different draws; domain errors.'),
'C15': ('`aggregate_losses` on symbolic losses, replacement values, ratios and unit factors.',
        'Sums and maxima as if-then-else terms; exclusivity and flags per realization; inputs compared before/after.'),
'C16': ('`aggregate_losses` with a symbolic table; bilinear/trilinear interpolation encoded exactly.',
        'Interpolant of the table with the axes in the order of the key at every place where all components occur; all other losses added.'),
'C17': ('`load_cmp_model` on in-memory tables with symbolic quantities and unit factors, every location/direction form and row order; `generate_cmp_sample` with symbolic draws.',
        'Expected set of groups from the meaning of the texts; each value = own row value x own unit; each sampled value is the quantile at exactly one draw, not shared with any other value.'),
'C18': ('`load_model`, `generate_sample`, `save_model`, `clone_demands`, `estimate_RID` and `expand_sample` on in-memory tables and real CSV files with symbolic parameters, unit factors and draws.',
        'Each sampled value equals the quantile at one draw not shared with another; correlation via z_y - rho g_i = +-sqrt(1-rho^2) g_j; round trip equal parameter by parameter; residual drift from the documented expression.'),
'C19': ('`calibrate_model` with the fit replaced by a recorder that returns arbitrary symbols; the real `fit_distribution_to_sample` on symbolic observations (moments), and with the optimiser replaced by a stub that evaluates the real objective at an arbitrary point.',
        'Rows kept by the meaning of the limits; moments as formulas of the observations; the likelihood written down independently with norm pdf/cdf as uninterpreted functions (quotients are unknowns with linear facts).'),
'C20': ('The real `calculate_*` methods on files that hold symbolic numbers (the patched reader turns their text back into symbols), with a scratch default model library.',
        'Rules of each step written down for 1-2 locations, 1-3 components; end results of the whole chain.'),
'C21': ('The real `calculate_loss` on tables that hold symbolic numbers, with a scratch default model library and a symbolic damage sample.',
        'Sums of quantity times consequence, and the replacement rules written down independently.'),
'C22': ('The real `run_pelicun` from a JSON configuration, input files and a scratch default model library that hold symbolic numbers, to the zip, CSV and JSON files, which are read back; `describe` of pandas is modelled on symbolic columns, `json.dump` writes symbols as tagged tokens.',
        'Samples, groups and totals computed from the inputs by a short model of the building; statistics of two values written out; set of files from the request.'),
'C23': ('The real `regional_sim` on a scratch folder (inventory, grid files, auto-population script, model library) whose numbers are symbolic, batches one after the other in one process with the batch size replaced by 1 or 2; `NNR` alone on symbolic known values and a symbolic draw.',
        'Weights recomputed from coordinates, damage and losses of each building by a per-building model; list of ids from the filter text.'),
'C24': ('The real `run_pelicun` from a configuration without a damage and loss section, with a stand-in script in a scratch model library; numbers of the building description are symbolic, the grid interpolation of SciPy is modelled.',
        'The results of C22 for the same building; the bilinear formula in the cell the losses are in; the expected settings from the choices.'),
'C25': ('The real `mvn_orthotope_density` and `RandomVariableSet.orthotope_density`; the compiled integration routine is replaced by a stand-in that records the box, the open sides and the correlations and returns a symbolic probability.',
        'The standardised limits and correlations written out for every variable; the scores of each family in closed form over an abstract normal distribution.'),
'C26': ('The real `dlml_update`, `check_dlml_data` and `cli.main` run against a scratch directory. `requests.Session.request` is replaced by a stand-in of GitHub with three commits on two branches: the contents of every file at every commit are symbolic numbers, comparisons list a file when the solver says the contents can differ, and the fault of an update sits at a symbolic step of its requests, responses and writes.',
        'After every update that finishes, the contents on the disk are proved equal to those of the requested commit; nothing is assumed about updates that fail.'),
'C27': ('The real `check_dlml_version` and `dlml_update` with the stand-in of GitHub of C26 and a symbolic clock.',
        'The times between the checks are symbolic; on every path the answer repeated or asked for is proved to be the one the elapsed time, the updates and the releases call for.'),
'C28': ('The real assessment classes are constructed from configurations in which a solver variable says for each option whether it is given, with symbolic numbers as values; random generators are compared by what they draw, and the log files are read back.',
        'On every path each option is proved equal to what was given or to its default, for the assessment at hand and for the ones created before, also after the dictionaries were changed.'),
'C29': ('Both runs execute the real model code on the same symbolic inputs. The sets of the model modules are replaced by sets that are visited in an order decided by solver variables in the second run; generators with the same seed hand out the same symbolic draws by position, generators without a seed and the global generator hand out new ones.',
        'On every path (orders of the sets, damage states, replacement) each entry of the second run is proved equal to that of the first one for all values of the draws and inputs; a counterexample is replayed with concrete numbers and the same orders of the sets.'),
}
