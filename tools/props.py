"""The table of properties: source of properties.jsonl and MANIFEST.json."""

PROPS = [
 dict(id='C01',
  title='Random variables follow the (truncated) distribution they were given',
  statement='For every supported continuous family (normal by COV or by standard deviation, lognormal, uniform, Weibull, piecewise-linear CDF) with any valid parameters and any truncation limits (none, one side, both), the sample produced for a uniform draw u is the u-quantile of that distribution conditioned on the limits, and it never falls outside the limits or the family\'s support. The CDF of the variable is the matching conditional CDF: 0 below, 1 above, and the inverse of the sampling function in between. Invalid piecewise-linear CDFs (not strictly increasing, not running from 0 to 1) are rejected and valid ones accepted.',
  over=['inputs', 'configurations'],
  quant='all parameters, truncation limits and uniform draws in the stated real ranges; each family x {no limit, lower, upper, both}; constant and per-sample parameters',
  why='Tests compare a few hand-picked parameter sets with stored numbers; one-sided limits, limits outside the support, negative means and per-sample parameters are hardly sampled.',
  files=['pelicun/uq.py'],
  mech=[('RandomVariable subclasses: cdf and inverse_transform', 'pelicun/uq.py')],
  observe=['RandomVariable.sample', 'RandomVariable.cdf()']),
 dict(id='C02',
  title='Discrete and resampling variables map every draw to the right outcome',
  statement='A multinomial variable returns category i exactly when the uniform draw lies in the i-th interval of the cumulative probabilities (the last category takes what is left), an empirical variable returns the observation whose equal-width interval contains the draw, a coupled-empirical variable repeats its observations in order for any sample size, and a deterministic variable is constant. Sampling a variable never alters the uniform draws it was given, and an optional mapping function is applied to the reported sample only. Probabilities that sum to more than one are rejected.',
  over=['inputs', 'configurations'],
  quant='all probability vectors of 1-3 (5) categories, all draws in [0,1), 1-4 (7) observations, sample sizes 1-9',
  why='Tests use one or two probability vectors and fixed seeds; interval edges and side effects on shared draws are not observed.',
  files=['pelicun/uq.py'],
  mech=[('MultinomialRandomVariable, EmpiricalRandomVariable, CoupledEmpiricalRandomVariable, DeterministicRandomVariable', 'pelicun/uq.py')],
  observe=['BaseRandomVariable.sample', 'BaseRandomVariable.uni_sample']),
 dict(id='C03',
  title='Sampling design: strata, shared draws and prescribed correlation',
  statement='Sampling a registry gives every variable a sample of the requested size; with Latin hypercube methods each variable has exactly one uniform value in each of the n equal strata (at its midpoint for the midpoint variant), unanchored variables use their own draws, and an anchored variable uses exactly its anchor\'s draws. A correlated set has, between each pair of named variables, exactly the prescribed normal-space correlation regardless of the order in which variables were listed or registered, and the correlation matrix of any ordered subset is returned in the order asked for. Duplicate names are refused.',
  over=['inputs', 'configurations', 'schedules'],
  quant='all outcomes of the random generator (any uniforms, any permutations), 1-3 (4) samples, 2-3 variables in every listing order, all correlations in the stated range including singular +-1',
  why='Tests run with fixed seeds and check statistics loosely or against stored files; they do not quantify over permutations, listing orders or correlation values.',
  files=['pelicun/uq.py'],
  mech=[('RandomVariableRegistry.generate_sample, RandomVariableSet.apply_correlation, RandomVariableSet.Rho', 'pelicun/uq.py')],
  observe=['RandomVariableRegistry.RV_sample', 'RandomVariableSet.Rho()']),
 dict(id='C04',
  title='A change of units commutes with the distribution',
  statement='Converting distribution parameters to base units (or back) multiplies the location parameter by the unit factor (including a leading count such as "2 ft"), scales the second parameter exactly when it carries the unit (normal by standard deviation, uniform) and leaves dispersions and coefficients of variation alone, and multiplies both truncation limits; so every quantile of the converted variable is the converted quantile of the original. For per-quantity parameters the factor is unit/quantity-unit (or just unit when not divided), and quantity-dependent parameters keep their text form with y-values and quantities each converted by their own factor. Rows without a unit and empirical rows come out unchanged, converting back restores the original, and unknown families are refused.',
  over=['inputs', 'configurations'],
  quant='all positive unit factors, parameters and limits; every scalable family x {no, lower, both limits}; rows in different orders; 2-point quantity-dependent parameters',
  why='Tests convert a couple of stored tables with fixed unit factors; an error confined to one family, one-sided limits or prefix counts passes.',
  files=['pelicun/uq.py', 'pelicun/model/pelicun_model.py', 'pelicun/assessment.py'],
  mech=[('scale_distribution', 'pelicun/uq.py'), ('PelicunModel._convert_marginal_params', 'pelicun/model/pelicun_model.py')],
  observe=['converted marginal parameter tables', 'RandomVariable.sample']),
 dict(id='C05',
  title='Unit factors are applied in the right direction and are right',
  statement='Converting a value, list or array from one unit to another multiplies it by factor(from)/factor(to), so that converting back restores it and conversions chain; both units must be known and belong to the same category, otherwise the request is refused. The built-in table agrees with the SI definitions of its units. The factors of a user-supplied unit file are the ones used by the assessment that names it, and malformed files (duplicate keys, non-numeric factors, unreadable structure) are refused. A unit text with a leading count stands for that multiple of the unit, and an unknown unit is refused.',
  over=['inputs', 'configurations'],
  quant='all positive unit factors and values; 3 units in 2 categories; float, list and array inputs; every unit of the built-in table',
  why='Tests convert a few fixed values; a wrong factor for one unit, a swapped direction or a wrong override passes.',
  files=['pelicun/base.py', 'pelicun/assessment.py', 'pelicun/file_io.py'],
  mech=[('convert_units, parse_units', 'pelicun/base.py'), ('Assessment.calc_unit_scale_factor, scale_factor', 'pelicun/assessment.py')],
  observe=['base.convert_units', 'AssessmentBase.calc_unit_scale_factor']),
 dict(id='C06',
  title='Saved samples and tables come back as they were, whatever the units',
  statement='Saving demand, asset, damage and loss samples (or a table with a unit per row or column) writes each value in the unit reported for it, and loading the result, in memory or through a file, restores in base units the same values under the same labels, for every assignment of units to columns and every column order. Loading drops failed simulation rows and event ids from demand samples only, and a save request with a missing unit or an unsupported file type is refused.',
  over=['inputs', 'configurations', 'histories'],
  quant='all values, all positive unit factors; 2-3 rows x 2-4 columns; in memory and through csv files',
  why='Tests compare stored files with a few units, mostly factor 1; a factor applied twice, to the neighbour column or not at all is then invisible.',
  files=['pelicun/file_io.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py', 'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py'],
  mech=[('save_to_csv, load_data', 'pelicun/file_io.py'), ('save_sample/load_sample of each model', 'pelicun/model/')],
  observe=['files and frames returned by save_sample', 'sample after load_sample']),
 dict(id='C07',
  title='Adjustments reach exactly the selected entries, each exactly once',
  statement='Scaling by labelled conditions multiplies exactly the rows (or columns) that satisfy all conditions and leaves the rest, and a condition set that selects nothing is refused when asked to. Consequence scaling multiplies the losses whose decision variable, component, location and direction all match a specification row (empty fields match everything, ranges are inclusive) and nothing else. A capacity adjustment applied to a performance group changes the location parameter of the selected limit states of that group by the requested operation, in every block and per realization when a list is given, leaving other groups, limit states and damage state assignment untouched; malformed specifications are refused.',
  over=['inputs', 'configurations'],
  quant='all values, factors and operands; every condition set over 3 levels; every combination of the listed specification fields; 4 operations; normal, lognormal and deterministic capacities',
  why='Tests exercise one or two specifications on a fixed table and compare sums; entries scaled twice, neighbours scaled by accident, or per-realization lists go unnoticed.',
  files=['pelicun/base.py', 'pelicun/model/loss_model.py', 'pelicun/model/damage_model.py', 'pelicun/uq.py'],
  mech=[('multiply_factor_multiple_levels', 'pelicun/base.py'), ('LossModel.consequence_scaling', 'pelicun/model/loss_model.py'), ('DamageModel_Base._create_dmg_RVs', 'pelicun/model/damage_model.py')],
  observe=['ds_model.sample', 'capacity sample']),
 dict(id='C08',
  title='Every component sees the demand its definition asks for',
  statement='For each performance group the damage model evaluates the demand of the type its component definition names, at the group\'s location plus the definition\'s offset (and the global offset of that demand type), in the group\'s direction for directional components; for non-directional components it is the largest demand over all directions at that location, multiplied by the configured factor. Components that define an expression use the value of that expression of the demands of the same realization. A demand that is not available, or is ambiguous, is refused and never replaced by another one.',
  over=['inputs', 'configurations'],
  quant='all demand values, multipliers; 2-3 realizations x 3 locations x 2 directions; offsets -1..2; demand types and expressions of 1-3 terms listed in the evidence',
  why='Tests use one building with one offset; wrong location, direction or realization for a particular combination is averaged away in the statistics compared.',
  files=['pelicun/model/damage_model.py', 'pelicun/model/demand_model.py'],
  mech=[('_get_required_demand_type, _assemble_required_demand_data', 'pelicun/model/demand_model.py')],
  observe=['demand passed to the capacity comparison', 'DamageModel.sample']),
 dict(id='C09',
  title='The damage state follows from demand and capacities',
  statement='A block of a performance group is in damage state 0 exactly when its demand does not exceed the capacity of its first limit state, and otherwise in the damage state of the most severe limit state reached: the demand exceeds the capacity, limit states being taken in order of severity regardless of how they are listed. When a limit state has several damage states, each block picks one of them according to the given weights, by its own draw. All limit states of a block share one draw, so more severe limit states with larger medians never have smaller capacities, and different blocks have independent draws. A capacity adjustment changes the medians of exactly the limit states and places it names, by the given operation, in every realization or in each by its own.',
  over=['inputs', 'configurations', 'schedules'],
  quant='all demands, capacities, medians, dispersions, weights and draws; 1-3 (11 for ordering) limit states; 1-3 blocks; 1-3 realizations; each supported family',
  why='Tests fix the seed and compare aggregated damage quantities; ordering, ties and draw sharing are not observable there.',
  files=['pelicun/model/damage_model.py'],
  mech=[('_create_dmg_RVs, _generate_dmg_sample, _evaluate_damage_state', 'pelicun/model/damage_model.py')],
  observe=['DamageModel.sample', 'capacity_sample and lsds_sample']),
 dict(id='C10',
  title='Damage quantities conserve the component quantities',
  statement='In every realization, the damaged quantities of a performance group over all its damage states, including the undamaged one, add up to its component quantity; each block contributes an equal share to exactly the damage state it is in. The result does not depend on how the performance groups are batched (block batch size), and the option to list all damage states only adds empty columns. Damage state probabilities are the fractions of evaluated realizations or quantity in each state.',
  over=['inputs', 'configurations'],
  quant='all quantities, damage states, demands and draws; 1-3 groups of 1-3 blocks, 2-3 realizations, batch sizes 1-4 and one batch',
  why='Tests run with one batch size and compare stored totals; a lost block or a group split between batches shows only for particular sizes.',
  files=['pelicun/model/damage_model.py'],
  mech=[('_prepare_dmg_quantities, _evaluate_damage_state, calculate', 'pelicun/model/damage_model.py')],
  observe=['DamageModel.sample', 'DamageModel.probabilities()']),
 dict(id='C11',
  title='Damage processes do what they say, in order, and nothing else',
  statement='A task of the damage process acts, in each realization where the worst damage state of the source component (over all of its places and blocks) is the source damage state, on the target component and no other: "DSk" moves its whole quantity to damage state k, "NA" removes it (unknown state); with a location qualifier each location is considered by itself, and "ALL" targets every component other than the source. All other realizations and columns keep their values and the total quantity is conserved. Tasks run in the order of their numbers, each seeing the effect of the previous ones, and malformed tasks are refused.',
  over=['inputs', 'configurations', 'histories'],
  quant='all quantities (zero, nonzero or missing); 2 realizations, 2-3 components x 2 locations; every task form; chains of 2-12 tasks',
  why='Tests run one process on one sample; realizations or columns touched by accident and the order of ten or more tasks are not sampled.',
  files=['pelicun/model/damage_model.py'],
  mech=[('_perform_dmg_task, calculate', 'pelicun/model/damage_model.py')],
  observe=['DamageModel.sample']),
 dict(id='C12',
  title='The first source that defines a component provides its parameters, and gaps are reported',
  statement='When damage or loss parameters are given in several sources, in one call or in several, each component (and decision variable) takes its whole definition from the first source that has it; definitions of components that are not needed have no effect; values are converted once, with the units of their own source. A component without a usable definition is reported as missing with a warning and is not silently given another\'s parameters. Incomplete flags exclude the component, and malformed tables are refused.',
  over=['inputs', 'configurations'],
  quant='all parameter values; 2-3 sources defining 1-3 components in every overlap pattern listed; different units per source',
  why='Tests load one library file at a time; precedence between sources, fields leaking from a later source and the missing list are not examined.',
  files=['pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/model/pelicun_model.py'],
  mech=[('load_model_parameters', 'pelicun/model/damage_model.py'), ('load_model_parameters', 'pelicun/model/loss_model.py')],
  observe=['damage_params, loss_params, missing_components']),
 dict(id='C13',
  title='Repair consequences: quantity times median consequence times its own deviation',
  statement='For every component, damage state (other than undamaged), location, direction and unit, each decision variable\'s loss is the damaged quantity times the consequence of that damage state: constant, or read from the quantity-dependent function (linear between its points, constant outside) at the quantity aggregated as the economies-of-scale options say (all directions and units, plus all locations if across floors, plus all damage states if across damage states; undamaged and missing quantities never count). Random consequences multiply that by an independent draw of the given family truncated at zero; cost and time share their draws to the extent of the given correlation. Missing quantities give zero loss, components without consequences give none, and no damage gives no losses.',
  over=['inputs', 'configurations', 'schedules'],
  quant='all quantities, function values, dispersions and draws; 1-2 realizations, 2 components x 2 locations x 2 directions x 2 damage states; 4 economies-of-scale settings; own or shared consequences; correlation 0, 0.5, 1',
  why='Tests use constant consequences or one economies-of-scale setting and compare aggregated means; quantities aggregated over the wrong set are not visible there.',
  files=['pelicun/model/loss_model.py'],
  mech=[('RepairModel_DS.calculate, _calc_median_consequence, _create_DV_RVs', 'pelicun/model/loss_model.py')],
  observe=['LossModel.ds_model.sample']),
 dict(id='C14',
  title='Loss functions turn each realization\'s demand into that group\'s loss',
  statement='The loss of a component driven by a loss function is, in each realization and for each decision variable that has one, the value of the function of its consequence at the demand its definition asks for, times the component quantity; random deviations are drawn independently for every block and truncated at zero, with cost and time correlated as configured. Function values and demands are converted with their own units. Demands outside the domain of the function and malformed functions are refused; components or decision variables without a loss function get no loss from it.',
  over=['inputs', 'configurations', 'schedules'],
  quant='all demands, quantities, function values, dispersions and draws; 1-2 realizations, 1-2 blocks, 2 components with own or shared consequences under the same or other names',
  why='Tests use one function and compare statistics of a seeded sample; mapping between components, consequences and demands is exercised for identical names only.',
  files=['pelicun/model/loss_model.py', 'pelicun/base.py'],
  mech=[('RepairModel_LF.calculate', 'pelicun/model/loss_model.py'), ('stringterpolation', 'pelicun/base.py')],
  observe=['LossModel.lf_model.sample']),
 dict(id='C15',
  title='Aggregated losses are the right sums, and replacement excludes everything else',
  statement='The aggregated loss of each decision variable is, per realization, the sum over all components, locations and both loss models in the unit of that decision variable; repair time is reported sequentially (sum) and in parallel (largest sum over locations). When a replacement consequence is nonzero, or a decision variable\'s sum without replacement exceeds the given ratio of its sampled replacement consequence, all other losses of that realization are ignored; in the latter case exactly the exceeded decision variables are flagged and the sampled replacement consequences of all decision variables are reported. Other realizations are unaffected, the stored samples are not altered, and inconsistent configurations are refused.',
  over=['inputs', 'configurations'],
  quant='all losses, replacement consequences, ratios and unit factors; 1-2 realizations; with/without replacement columns, loss functions, and losses for each decision variable',
  why='Tests aggregate constant samples (all ones) with one threshold; per-realization exclusivity, location sums and units with factor other than one are not observed.',
  files=['pelicun/model/loss_model.py'],
  mech=[('aggregate_losses, _apply_replacement_thresholds, _aggregate_sample, _make_replacement_exclusive', 'pelicun/model/loss_model.py')],
  observe=['LossModel.aggregate_losses()']),
 dict(id='C16',
  title='Combined losses replace the sum wherever the components occur together',
  statement='With a loss combination table, the losses of the listed components at the same location, direction and unit are replaced, for that decision variable only, by the table value interpolated at their losses, each component using its own axis; this happens everywhere the components occur together, whatever other components are there, and all other losses are still added. Losses outside the table, component sets that never occur together, and malformed tables are refused.',
  over=['inputs', 'configurations'],
  quant='all losses within the table, all table values (not symmetric); 2-3 components, 1-2 places, 1-2 realizations, losses from one or both models',
  why='The only test combines one pair with a symmetric table at one place.',
  files=['pelicun/model/loss_model.py'],
  mech=[('_apply_loss_combinations, _loss_combination_add_combinable', 'pelicun/model/loss_model.py')],
  observe=['LossModel.aggregate_losses()']),
dict(id='C17',
  title='The asset model expands to the right groups with the right quantities',
  statement='Every row of the component model creates one performance group for each combination of the locations and directions it names (numbers, ranges, lists, all, top, roof; a missing direction is direction 1), repeated combinations being kept apart by a unique id; each group has the blocks, family and parameters of its row, converted to base units with the unit of that row. The generated sample has, in every realization and for every group, the quantile of that group\'s (truncated) distribution at its own independent draw, following the chosen sampling method and the requested size or that of the demand sample. Rows that cannot be read are refused.',
  over=['inputs', 'configurations'],
  quant='all quantities, parameters, limits, unit factors and draws; 1-3 rows in every order, every form of location and direction, blocks 1-3 or missing, every family, 2-3 realizations',
  why='Tests load one file per feature with identical deterministic quantities, a single unit and one block, so attributing a value, unit or block count to the wrong row is invisible.',
  files=['pelicun/model/asset_model.py', 'pelicun/model/pelicun_model.py', 'pelicun/base.py'],
  mech=[('load_cmp_model, _create_cmp_RVs, generate_cmp_sample', 'pelicun/model/asset_model.py'), ('_get_locations, _get_directions', 'pelicun/model/pelicun_model.py')],
  observe=['AssetModel.cmp_marginal_params', 'AssetModel.cmp_sample', 'AssetModel.cmp_units']),
dict(id='C18',
  title='The demand sample follows the demand model it was given',
  statement='A generated demand sample has one column per demand of the model and the requested number of realizations; every value is the quantile of the (truncated) distribution of that demand, in base units, at its own draw, correlated demands being mixed by exactly the coefficient given for that pair wherever it stands in the matrix, and empirical demands taking observed values only (in the order observed when that is asked for). A model that is saved and loaded again, by a fresh or a used object, is the same model with the same units, and saving does not change it. Cloned demands repeat their source, and its unit, under the new name and nothing else changes; unreadable cloning requests are refused. Residual drifts are zero below yield, follow the documented piecewise expression with lognormal deviation above it, never exceed the peak drift, and leave the other demands alone; a demand added by the user is converted from its own unit.',
  over=['inputs', 'configurations'],
  quant='all parameters, limits, coefficients, observations, unit factors and draws; 3 demands in any order, every family, 1-4 realizations, 4 cloning requests with units listed in any order, 1-2 stories',
  why='Tests load demand models where all demands share units and family order, never store an empirical model and reload it into a used object, and compare residual drifts with one stored table.',
  files=['pelicun/model/demand_model.py', 'pelicun/model/pelicun_model.py', 'pelicun/uq.py', 'pelicun/file_io.py'],
  mech=[('generate_sample, _create_RVs', 'pelicun/model/demand_model.py'), ('save_model, load_model', 'pelicun/model/demand_model.py'), ('clone_demands, estimate_RID, estimate_RID_and_adjust_sample, expand_sample', 'pelicun/model/demand_model.py')],
  observe=['DemandModel.sample', 'DemandModel.save_sample', 'DemandModel.marginal_params', 'DemandModel.user_units', 'saved CSV files']),
dict(id='C19',
  title='Calibration fits the demand model to the right data by the right likelihood',
  statement='Calibration applies to every demand the settings of its own type where given and those for all demands otherwise; limits are converted once, with the unit they are given in. Exactly the realizations inside all censoring and then all truncation limits are used, the censored ones are counted, empirical demands keep exactly these observations, and every fitted parameter, limit and correlation is stored with the demand it belongs to; the sample and the settings do not change. Without limits the fit gives the mean (of the logarithms, for lognormal) and the population deviation, as coefficient of variation where the family asks for one, and the correlation of the standard scores, whatever the numbers (also integers). With limits the optimiser minimises exactly the mean negative log-likelihood of the truncated and censored distribution, and its optimum is what is reported. Additional uncertainty adds variances, in the unit it is given in.',
  over=['inputs', 'configurations'],
  quant='all observations, limits, unit factors, fit results and added uncertainties; 8 configurations of families and limits for all demands and for types; 3 demands, 1-4 observations; the likelihood at any point, for any truncation and detection limits, in one dimension',
  why='Tests compare fitted parameters of a few samples with reference numbers at loose statistical tolerances, in one unit, with limits that remove nothing or everything visible.',
  files=['pelicun/model/demand_model.py', 'pelicun/uq.py'],
  mech=[('calibrate_model', 'pelicun/model/demand_model.py'), ('fit_distribution_to_sample, _neg_log_likelihood, _get_theta, _get_limit_probs, _get_std_samples, _get_std_corr_matrix', 'pelicun/uq.py')],
  observe=['DemandModel.marginal_params', 'DemandModel.correlation', 'DemandModel.empirical_data', 'uq.fit_distribution_to_sample']),
dict(id='C20',
  title='A damage calculation set up by a configuration is the one described',
  statement='Demands read for a calculation keep every realization inside the collapse limits and drop the others, get the units given or those their type implies for the length unit, and are used as they are when the calculation says so. Residual drifts are inferred from the peak drifts of the same direction with the yield drift configured for it. The collapse and irreparable-damage fragilities of the configuration govern collapse and irreparable damage: capacity, dispersion, demand and unit are those given, at every location of the demand, the drivers trigger them through the chosen damage process, and without them nothing collapses. Custom model parameters replace those of default databases, and components that are not special behave as with the stages run one by one. The configuration passed in is not changed.',
  over=['inputs', 'configurations'],
  quant='all demand values, limits, unit factors, medians, dispersions, quantities and capacities; every default damage process and a user-defined one, 4 drivers of collapse; 8 combinations of sources; 1-4 realizations; every draw the same (the quantile at 0.8)',
  why='The tests of these methods run a handful of configurations and look at the columns of the result; most branches (units inferred from a prefix, fragilities built from the configuration, sources overriding each other) are not reached.',
  files=['pelicun/assessment.py', 'pelicun/model/damage_model.py', 'pelicun/model/demand_model.py'],
  mech=[('calculate_demand, calculate_asset, calculate_damage, _add_units', 'pelicun/assessment.py'), ('estimate_RID_and_adjust_sample, expand_sample', 'pelicun/model/demand_model.py')],
  observe=['DLCalculationAssessment.calculate_demand/calculate_asset/calculate_damage', 'Assessment.calculate_damage/calculate_loss/aggregate_loss']),
dict(id='C21',
  title='A loss calculation set up by a configuration is the one described',
  statement='Consequences come from the sources named, custom ones replacing default ones, under current and legacy names. An automatic loss map gives every component with consequences its own (or, for Hazus, those of its occupancy type), a user-defined one those it names; collapse and irreparable damage give the replacement consequences unless the map says otherwise. Replacement consequences are those configured, with the distribution given, and otherwise the documented default of the method. Missing components are added to the map as the policy says. Wind and flood losses are combined with the table of the method. Without damage the losses are zero in every realization.',
  over=['inputs', 'configurations'],
  quant='all consequences, quantities, medians, dispersions and table values; 4 damage process approaches, 4 ways to give replacement consequences, 8 combinations of sources, 3 policies, 4 decision variables; 1-3 realizations; every draw the same (the quantile at 0.8)',
  why='Tests run a few configurations and compare stored results; precedence of sources, policies and defaults are not covered.',
  files=['pelicun/assessment.py', 'pelicun/model/loss_model.py', 'pelicun/file_io.py'],
  mech=[('calculate_loss, load_consequence_info, _loss__add_replacement_*, _loss__map_auto, _loss__map_user', 'pelicun/assessment.py'), ('add_loss_map, _missing_policy, aggregate_losses', 'pelicun/model/loss_model.py'), ('substitute_default_path', 'pelicun/file_io.py')],
  observe=['DLCalculationAssessment.calculate_loss', 'LossModel.aggregate_losses']),
dict(id='C22',
  title='The files a damage and loss calculation writes are its results',
  statement='A calculation writes exactly the outputs its configuration requests, in the formats requested, and nothing of an earlier calculation stays in the output folder under these names while other files are left alone. Demand, asset, damage and loss samples hold the numbers of the calculation in the units they are labelled with; colocated results are summed when asked for; grouped results add up (or, condensed, name the highest damage state per place); aggregate results are the totals, with replacement consequences after collapse; the summary holds the same totals and whether the building collapsed. Statistics are those of the sample in the corresponding file. JSON files hold the same numbers and units as the tables, as numbers, under nested or simple labels. Calculations without damage, with no damage at all or without losses still give their results. Settings left out get the documented defaults, incomplete configurations are refused, and a calculation does not affect the next one. Started from the command line, the calculation is the one its options describe.',
  over=['inputs', 'configurations', 'histories'],
  quant='all demands, capacities, quantities and replacement consequences within bands that fix the damage states and the order of the losses; 2 realizations, 2 components at 4 places (one of them shared by two rows); every output alone and together, 5 settings, 8 ways to choose the format, two calculations in a row; every combination of settings given or left out',
  why='The tests of the driver run two complete examples and check that files exist.',
  files=['pelicun/tools/DL_calculation.py', 'pelicun/base.py', 'pelicun/assessment.py'],
  mech=[('run_pelicun, _parse_config_file, _demand_save, _asset_save, _damage_save, _loss_save, _summary_save, _result_summary, _create_json_files_if_requested, convert_df_to_dict', 'pelicun/tools/DL_calculation.py'), ('describe, convert_to_SimpleIndex, convert_to_MultiIndex', 'pelicun/base.py')],
  observe=['the files in the output folder', 'the parsed configuration']),
dict(id='C23',
  title="A regional simulation gives every building its own calculation's results",
  statement='Every selected building of the inventory gets the intensity measures of its own location: a weighted mean of the closest grid points, the same weights in every realization, each measure taken by its name. Its damage states and losses are the ones a calculation of this building alone would give with its own archetype, occupancy and intensity measures; a building that is never damaged has zero losses, also when no building is damaged. Results do not depend on the batches, on the order in which they finish, or on the other buildings, and every result file lists every selected building once, in order, for all realizations. The simulation of the command line is that of the configuration it names, on the number of cores it asks for. Filters select exactly the listed ids and ranges. Interpolation between points is the weighted mean for every weighting, and resampling draws, for every new realization, one common realization of one of the closest points, with probabilities equal to the weights.',
  over=['inputs', 'configurations'],
  quant='all intensity measures at 4 grid points, capacities and consequences; all damage states of one of up to 6 buildings; 1, 3 or 4 neighbours; batches of 1 and 2; buildings never damaged in any combination; filters with 1 or 2 entries over ids 0-4; known values of 1 to 3 dimensions; every draw of the neighbour',
  why='There are no tests of the regional driver on more than one set of inputs; results are compared to stored files.',
  files=['pelicun/tools/regional_sim.py', 'pelicun/tools/NNR.py'],
  mech=[('regional_sim, process_buildings_chunk, _calculate_losses_hazus_eq, _calculate_losses_general, parse_id_filter, process_and_save_chunk', 'pelicun/tools/regional_sim.py'), ('NNR', 'pelicun/tools/NNR.py')],
  observe=['the result files of a regional simulation', 'the estimates of NNR']),
dict(id='C24',
  title='A calculation set up by an auto-population script is the one the script describes',
  statement='When a configuration has no damage and loss section, the script of the selected method (or of the folder or file given by the caller) sees the whole description of the building, and the components and settings it returns are the ones calculated: the assignment file lists its rows, the options of the configuration fill in those the script leaves out, demand file, number of realizations and coupling come from the caller, and exactly the requested results are written, lean or detailed. The extended configuration that is saved gives the same results again. Several methods calculate all of their components together; wind and flood losses of a building are combined with the table, the first method along its rows, other losses are added. Buildings marked as not applicable are skipped, missing scripts and settings are refused, and a calculation, finished or refused, does not affect the next one.',
  over=['inputs', 'configurations', 'histories'],
  quant='all demands, capacities, quantities and replacement consequences of the building of C22; lean and detailed results with every combination of requested results and formats; two calculations in a row; all loss ratios in three cells of a 4x4 combination table, both alphabetical orders of the components and both orders of the methods; every source of the script with every combination of options, coupling and 2-4 realizations',
  why='The tests run one example per method with stored results, each in its own folder.',
  files=['pelicun/tools/DL_calculation.py', 'pelicun/auto.py', 'pelicun/assessment.py'],
  mech=[('run_pelicun, _parse_config_file', 'pelicun/tools/DL_calculation.py'), ('auto_populate', 'pelicun/auto.py'), ('calculate_loss', 'pelicun/assessment.py'), ('update_vals', 'pelicun/base.py')],
  observe=['the files in the output folder', 'the parsed configuration']),
dict(id='C25',
  title='The probability of a box of correlated variables',
  statement='The density of a multivariate normal over a box is that of the standardised box with the correlations of the covariance matrix, each open side (not a number, or infinite) left open, in any combination; limits and parameters can be numbers in one dimension. For a set of variables of any families the limits are turned into standard normal scores with the distribution of the variable they belong to, truncation included, and the correlations are those between these variables, also for a subset of them in any order; a box without limits has probability one. The limits can be a column or a list of one limit for every variable.',
  over=['inputs'],
  quant='all means, deviations, correlations, limits and parameters; 1-4 dimensions, every combination of open and bounded sides; sets of a truncated normal, a lognormal and a uniform variable in two orders and every kind of subset',
  why='Tests compare a handful of boxes to stored numbers, most of them with independent or equally distributed variables.',
  files=['pelicun/uq.py'],
  mech=[('mvn_orthotope_density', 'pelicun/uq.py'), ('RandomVariableSet.orthotope_density, RandomVariableSet.Rho', 'pelicun/uq.py')],
  observe=['uq.mvn_orthotope_density', 'RandomVariableSet.orthotope_density']),
dict(id='C26',
  title='A finished update leaves the model library of the requested version',
  statement='When an update of the damage and loss model library finishes, every file listed for the requested release or commit is on the disk with the contents it has there, whatever happened before: any sequence of upgrades, downgrades and changes to a commit of another branch, with or without the cache, by function call or command line with the options in any order, files edited or removed in between, and earlier updates that lost the connection, got an error or half of a response, ran out of disk space or were interrupted at any point. An update that does not finish never makes a later one, or the next import, take the library for installed. An update to the version that is installed downloads no model file.',
  over=['histories', 'fault_sequences', 'crash_points', 'inputs'],
  quant='three updates among three commits on two branches, 1-2 files with free contents and lists of files; one fault or interruption at any request, response or write of an update or of the first download; 296-304 other changed files; all the forms of the command',
  why='Tests replace the cache, the comparison and the download by fixed mocks, and look at single updates without a history or a fault in the middle.',
  files=['pelicun/tools/dlml.py','pelicun/cli.py'],
  mech=[('download_data_files, _get_changed_files, _resolve_version_to_commit_sha', 'pelicun/tools/dlml.py'), ('check_dlml_data', 'pelicun/tools/dlml.py'), ('main', 'pelicun/cli.py')],
  observe=['pelicun dlml update', 'import pelicun']),
dict(id='C27',
  title='The check for a newer model library is current and asks once a day',
  statement='The check for a newer version of the model library names the installed version or commit and reports an update if and only if the latest release is newer, by the order of version numbers; a commit can always be updated to a release. Within a day of a check the answer is repeated without a request, and a day after it, or after the library was updated, the latest release is asked for again. Without a connection the check says so and reports no update.',
  over=['histories', 'fault_sequences', 'inputs'],
  quant='three releases in the order v1.9.0, v1.10.0, v2.0.0rc1, installed as a release or a commit; two or three checks at any times within days, with a new release, an update or a failing request between them',
  why='Tests set the stored answer and the clock by hand, and never look at the answers along a history of updates and checks.',
  files=['pelicun/tools/dlml.py'],
  mech=[('check_dlml_version, save_cache, load_cache', 'pelicun/tools/dlml.py')],
  observe=['dlml.check_dlml_version']),
dict(id='C28',
  title='The options a user gives are the ones in effect',
  statement='Every option of an assessment has the value its configuration gives, at any level of nesting, and the documented default where the configuration gives none. Options of the wrong shape are refused with a message that names them. The configuration stays as the user wrote it, and neither other assessments, created before or after, nor later changes of the configuration alter the options of an assessment. The seed alone fixes the random numbers that are drawn, per assessment. The log file of an assessment holds exactly its own messages, in order and with their times, and its warnings appear once each, on the screen and in the warnings file; messages are printed if and only if this is asked for.',
  over=['inputs', 'configurations', 'histories'],
  quant='every subset of the options given, in four groups, with any numeric values; two or three assessments and changes of their dictionaries in a row; 12 misplaced values and groups; draws of two assessments in any order; 4 log entries of 3 kinds to two loggers with and without printing and milliseconds',
  why='Tests look at one set of options at a time, and no test looks at options after another assessment or a change of the configuration.',
  files=['pelicun/base.py','pelicun/assessment.py','pelicun/settings/default_config.json'],
  mech=[('Options, merge_default_config, update_vals, Logger', 'pelicun/base.py'), ('AssessmentBase', 'pelicun/assessment.py')],
  observe=['options of an assessment', 'log file, warnings file, screen']),
dict(id='C29',
  title='With the same seed, the same inputs give the same results in every run',
  statement='Two runs of a calculation with the same seed and the same inputs give the same demands, component quantities, damage states and quantities, consequences and aggregated losses, realization by realization and entry by entry: in another process, where sets of text are visited in another order, and in the same process, after an earlier run. Every random number comes from the generator of the seed, and which component gets which number depends on the inputs alone.',
  over=['inputs', 'schedules', 'histories'],
  quant='two runs of each stage in a row, the second one with every set of text of the model modules visited in any order (3 or more elements: forwards or backwards), with unseeded and global random numbers arbitrary; 3 demands of 6 kinds, 3 component groups, 2 fragilities with a damage process, 2-3 components with random consequences or loss functions, aggregation with combination and replacement',
  why='A test runs in one process with one hash seed, so an order that varies from process to process never shows.',
  files=['pelicun/model/demand_model.py','pelicun/model/asset_model.py','pelicun/model/damage_model.py','pelicun/model/loss_model.py','pelicun/uq.py','pelicun/base.py'],
  mech=[('generate_sample', 'pelicun/model/demand_model.py'), ('generate_cmp_sample', 'pelicun/model/asset_model.py'), ('DamageModel', 'pelicun/model/damage_model.py'), ('LossModel', 'pelicun/model/loss_model.py'), ('RandomVariableRegistry', 'pelicun/uq.py'), ('Options.rng', 'pelicun/base.py')],
  observe=['samples of the models and aggregated losses of both runs']),
]

NOT_CLAIMED = [
]
