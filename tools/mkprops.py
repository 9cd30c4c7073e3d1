import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':state} if state else {}),**({'observe_at':observe} if observe else {}),hook_needed=hook)))
U='src/eumopps/catalogue/'; A='src/eustace/analysis/'; S=A+'advanced_standard/'
prop('C01','Every file of a dataset is catalogued exactly once with the fields of its name',
 'After searching a dataset, every file below its base path (and every member of an archive the dataset describes) is accounted for: listed as an entry of each subset whose name patterns it satisfies, as a date error of that subset when the name encodes an impossible date, or as unmatched when it satisfies no subset. An entry carries exactly the time and the consecutive tags spelled by its own name, and nested patterns require the fields shared by both patterns to agree within that same name. Which other files are present never changes how a file is classified, and searching again gives the same result.',
 ['inputs','configurations'],'All directory trees, all pattern lists (one or two nested patterns, date fields, tags, lower-case tag references, wildcards), all combinations of subsets and layouts.',
 'Tests use a handful of hand-written names and one fixture tree; misclassification needs particular combinations of names (colliding tag values, two parents, impossible dates) that no sample covers.',
 [U+'dataset.py',U+'namepatterns.py',U+'storage.py',U+'search.py','src/eumopps/timeutils/datetime_dictionary.py'],
 [('nested pattern search','namepatterns.py nested_search_patterns'),('subset search and non-matching list','dataset.py CatalogueDataSet.search'),('archive member search','storage.py DataStorageArchive.match_files')],observe=['subset matches, value_errors, archive_unused','dataset non_matching'])
prop('C02','Parallel checksumming gives every entry its own checksum whatever the schedule',
 'When checksum computation returns, every catalogued file that can be read carries the checksum and size of its own contents, and every file that cannot be read carries none, for any number of files and any interleaving of the worker threads. Each file is checksummed exactly once, failures of some files never affect others, and the call always returns, and only after all workers have finished.',
 ['schedules','inputs','fault_sequences'],'All subset sizes, thread counts and interleavings; any subset of files missing or unreadable.',
 'The tests check the index split for a few totals and one run on tiny subsets; they never control the schedule or fault files.',
 [U+'dataset.py',U+'checksum.py'],[('work split','dataset.py CatalogueDataSubset.compute_checksum_thread_indices'),('worker completion events','dataset.py ChecksumThread'),('silent per-file failure','dataset.py CatalogueFileEntry.compute_checksum')],observe=['checksum and size of entries after the call'])
prop('C03','Each run gets exactly the inputs of its own step, per missing-data policy',
 'For every step of an operation, the resolved inputs are exactly the catalogued files whose time falls within that step (or whose name is the one the step prescribes), never a file of another step or from outside the period. If a step has no input the declared policy decides: the build is refused, or the run is told that the input is missing, or that step is left out of all parameters of the operation consistently so that the remaining runs keep their own inputs, outputs and times together. Repeated resolution is independent of the order in which files were catalogued except for the order of files inside one list.',
 ['inputs','configurations','histories'],'All catalogues, step definitions (once, daily, annual, monthly), patterns, policies and combinations of several inputs with different gaps.',
 'Tests resolve a few fixed catalogues; alignment errors need several inputs with different gaps and boundary times.',
 [U+'placeholder.py',U+'operation.py',U+'operationparameters.py',U+'step.py',S+'examples/placeholder.py',S+'examples/step.py'],
 [('input resolution','placeholder.py InputFileList.operation_input_resolve'),('skip and restriction','operation.py Operation.resolve_operation_references'),('annual batches of daily files','examples/placeholder.py')],observe=['parameters returned for each operation index'])
prop('C04','Each output file is declared once and later operations read exactly that file',
 'Each run of an operation is assigned the output path prescribed by its step; distinct paths become distinct catalogue entries, equal paths share one, and a subset whose outputs are already defined is never extended by another operation. An operation that uses an earlier operation\'s output dataset as input is given, for each step, exactly the path that the earlier run of that step was told to write, even when runs were skipped.',
 ['configurations','histories'],'All chains of operations over all step types, patterns with and without time fields, and skipped steps.',
 'Tests resolve single operations; linking errors appear only for chains with gaps or repeated names.',
 [U+'placeholder.py',U+'operation.py',U+'datareference.py',U+'fileio/formatnetcdf.py'],[('output declaration','placeholder.py OutputFile.operation_output_resolve'),('new datasets and default paths','operation.py resolve_operation_references'),('reference to path','formatnetcdf.py load_data_pathnames')],observe=['pathnames given to run functions'])
prop('C05','Batches run every operation exactly once with its own parameters',
 'For any operation and batch size, running every index of every batch that the count command reports executes each run of the operation exactly once, with exactly the parameters resolved for that run, and nothing else. An index beyond the last run, an unknown operation or an ambiguous request is refused without executing anything, and code of a different version than the catalogue records is refused unless that is explicitly allowed.',
 ['inputs','configurations'],'All run counts, batch sizes, batch numbers and indices, and all catalogues of named operations.',
 'Tests exercise single indices; coverage and disjointness over all batch sizes is a quantified statement.',
 [U+'commandrun.py',U+'commandcount.py',U+'multiplecommandsrun.py',U+'fileio/formatnetcdf.py',U+'operation.py'],[('index arithmetic','commandrun.py'),('count','formatnetcdf.py operationcount'),('parameter selection','operation.py resolve_single_operation')],observe=['calls made to run functions and their arguments'])
prop('C06','Catalogue builds preserve history: updates keep every earlier reference valid',
 'Building over an existing catalogue is refused unless overwriting or updating was asked for; an update keeps all datasets, entries and operations already there, so that every earlier run still resolves to the same parameters and paths, and adds only what is new. Every successful build leaves a complete loadable catalogue with a fresh identity, and a build that fails for any reason before its result is written leaves the existing catalogue file as it was.',
 ['histories','crash_points','fault_sequences'],'All sequences of build, overwrite and update commands, each possibly failing while loading, searching or resolving.',
 'Tests perform one build or one update; they never compose histories or inject failures.',
 [U+'build.py',U+'catalogue.py',U+'fileio/formatnetcdf.py',U+'operation.py'],[('policy and merging','build.py build_from_json_file'),('identity','catalogue.py newidentity'),('save','formatnetcdf.py CatalogueWriterNetCDF')],observe=['catalogue file after each command'])
prop('C07','Step indices and times are inverse, ordered and cover the period without gaps',
 'For every period, the steps of an operation are numbered consecutively from the first to the last, each step starts where the previous one ends, the time of step i maps back to index i, and any time inside step i maps to i while times before the period never map into it. Conversions between calendar times and day, second, month or year numbers are exact inverses to the precision they document, across leap years, century years and month ends.',
 ['inputs'],'All start and end times, all dates between 1850 and 2100 and all step types.',
 'Tests check isolated dates; off-by-one and truncation errors sit at boundaries such as times shortly before the start or the end of February.',
 [U+'step.py','src/eumopps/timeutils/timebase.py','src/eumopps/timeutils/datetime_numeric.py',S+'examples/step.py',S+'examples/stepmidmonth.py',S+'fileio/step.py','src/eustace/timeutils/epoch.py'],[('index arithmetic','step.py StepDaily'),('time bases','timebase.py')],observe=['index_at_time, time_at_index, count'])
prop('C08','A catalogue read back from disk is the catalogue that was written',
 'Saving a catalogue and loading it again reproduces every dataset, subset, entry, operation, step, parameter, time, missing value and nested list exactly, and partial reads (one operation, one dataset, counts or path lists) agree with the full read. Text descriptors describe the same objects when written and read again.',
 ['inputs','histories'],'All catalogues expressible through the descriptors, including empty lists, missing values, ragged lists, dates and non-ASCII-free names, and any number of write/read generations.',
 'Tests round-trip a few fixed objects.',
 ['src/eumopps/netcdfobjects/netcdfobjects.py','src/eumopps/jsonobjects/jsonobjects.py',U+'fileio/formatnetcdf.py',U+'fileio/formatjson.py'],[('object encoding','netcdfobjects.py'),('partial readers','formatnetcdf.py CatalogueReaderNetCDF')],observe=['reloaded objects'])
prop('C09','Back-fitting uses each observation once, net of exactly the other components',
 'Whenever a component of the analysis is updated for a time, every observation of every input source for that time contributes exactly once, after subtracting the current estimates of all other components and not its own. Only the updated component changes, the result for one time never depends on inputs of another except through accumulation in the component that spans time, and evaluated fields are the sum of all components with their uncertainties combined in quadrature.',
 ['histories','configurations','inputs'],'All numbers and orders of components, times, input sources, iterations and empty inputs.',
 'Tests run a fixed three-component example and compare numbers; they do not vary order, sources or repeated iterations.',
 [S+'analysissystem.py',S+'components/spatial.py',S+'components/spacetime.py',S+'components/spatialdelayed.py',S+'optimizationsystem.py'],[('subtraction and update','analysissystem.py update_component_time'),('time batches','analysissystem.py update_component_times'),('evaluation','analysissystem.py evaluate_*')],observe=['observations handed to component solutions','evaluated values'])
prop('C10','Component storage returns what was last stored for the same time, or refuses',
 'A state, sample, uncertainty or measurement read back for a time is exactly what was last written for that time and kind, from memory or from the file assigned to it, and nothing is ever returned for a time or kind that was never written or configured. Reading never changes what is stored, the same history gives the same answers whichever of the storage variants holds it, and a request for a time the storage was not set up for is refused rather than answered with another time\'s data.',
 ['histories','configurations'],'All sequences of reads and writes over times and kinds, for in-memory, single-file, indexed-file and batched-file storage with and without caching.',
 'Tests write once and read once per class.',
 [S+'components/storage_inmemory.py',S+'components/storage_files.py',S+'components/storage_files_batch.py'],[('per-time maps','storage_inmemory.py'),('time index guard','storage_files.py'),('batched files and cache','storage_files_batch.py')],observe=['returned objects','files written'])
prop('C11','Solutions depend only on which measurements were accumulated, not on how',
 'Measurement contributions add up: accumulating observations one source at a time, in any order, in any grouping by time, through stored and re-read intermediate results or by merging partial results gives the same system and therefore the same solution, and each contribution enters exactly once. An update without observations leaves the prior solution.',
 ['histories','inputs'],'All partitions and orders of a set of observations over calls, stored batches and merges.',
 'Tests add two fixed updates.',
 [S+'linalg/linearsystem.py',S+'components/spacetime.py',S+'components/spatial.py',S+'components/storage_inmemory.py'],[('additive updates','linearsystem.py MeasurementUpdate'),('combination at solve','spacetime.py update'),('merge','spacetime.py merge_updates')],observe=['information vector and precision','solution state'])
prop('C12','Satellite gridding counts every valid observation once in its own cell',
 'Each observation that passes quality control contributes exactly once, to the one grid cell that contains its location, and no other observation contributes; cell counts, means, extremes and deviations are those of exactly these observations. The result does not depend on the order of files or pixels; missing or unreadable files are reported and contribute nothing, cells without data are marked invalid, and positions outside the grid are rejected or wrapped as configured, never put in a wrong cell.',
 ['inputs','fault_sequences','histories'],'All sets of observations, quality flags, grids, file orders and file failures.',
 'Tests grid small fixed arrays.',
 ['src/eustace/satgrid/grid.py','src/eustace/satgrid/aggregate.c','src/eustace/satgrid/aggregate_grid.py','src/eustace/satgrid/file_aggregate_grid.py','src/eustace/satgrid/satellite_file.py','src/eustace/satgrid_iris/pipeline.py','src/eustace/satgrid_iris/satellite.py'],[('axis index','grid.py GridAxis.compute_indices'),('aggregation','aggregate.c'),('two-pass file processing','file_aggregate_grid.py')],observe=['output fields','load results'])
prop('C13','Quality flags mean what their checks say and nothing else changes',
 'Each quality-control pass sets its own flag in exactly the cells and days whose evidence meets its documented criterion (window before or after, calendar day over the years, persistent outliers, thresholds), and leaves every other flag untouched; days without files are treated as absent evidence. Merging flag sets keeps every flag of either, reinterpreting only the documented one, and masking removes exactly the cells that satisfy at least one of the requested flag combinations.',
 ['inputs','configurations','histories'],'All daily flag and data sequences, windows, thresholds, missing days and mask specifications.',
 'Tests cover only isolated helper functions.',
 ['src/eustace/postprocess/'+f for f in ('flags.py','window_check.py','calendar_check.py','outlier_window_check.py','merge_flag_files.py','apply_mask.py','threshold_check.py','cell_percentile_threshold.py')],[('window counts','window_check.py'),('calendar counts','calendar_check.py'),('mask rule','apply_mask.py compute_mask')],observe=['flag arrays written','masks'])
prop('C14','Grid-box statistics cover exactly the in-grid, unmasked points of each source',
 'When point data are binned to a grid for diagnostics, each unmasked point of the requested day contributes exactly once to the box that contains it, counts, sums, extremes and precision-weighted means of every box are those of its points, accumulating more batches is the same as one batch of all points, and boxes without points stay masked. Fields of different sources, quantities and statistics never mix.',
 ['inputs','histories'],'All batches of points, masks, axes (including wrapped longitude) and orders of accumulation.',
 'Tests bin a few fixed points.',
 ['src/eustace/satgrid_iris/gridbin/gridfieldlist.py','src/eustace/satgrid_iris/gridbin/operation',A+'diagnosticgrid.py',A+'diagnosticgrid_aggregate.pyx'],[('axis index','gridfieldlist.py GridFieldAxis'),('bin operations','gridbin/operation/*.pyx'),('diagnostic aggregate','diagnosticgrid_aggregate.pyx')],observe=['field data and masks'])
prop('C15','Observations read by day or by place are exactly those that were stored',
 'For every set of daily observations, what is stored for a day is exactly the valid observations of that day, and reading a day, counting it, or collecting one place over all days through the place index gives back exactly the stored values with their locations, errors and correlated components, in both the writing and the analysis programs. Counts agree with contents, days without a file are reported as missing, and a file belonging to a different set of locations is refused.',
 ['inputs','histories'],'All observation sets, masks, numbers of correlated error components, days and subsets of places.',
 'Tests read one fixed file.',
 [A+'fileio/observationsource_rawbinary.py',A+'fileio/locationpointers.py',A+'obscount.py',A+'preparelocationpointers.py','src/cpp/eustace/analysis/inputmanager.cpp','src/cpp/eustace/analysis/fileio/rawbinary.cpp','src/cpp/eustace/analysis/fileio/locationpointers.cpp','src/cpp/eustace/timeutils/timebase.cpp'],[('binary layout','observationsource_rawbinary.py'),('place index','locationpointers.py'),('retrieval','inputmanager.cpp')],observe=['arrays returned by readers'])
prop('C16','Break-point filtering keeps aligned records and exactly those that qualify',
 'Selecting break points by likelihood keeps exactly the records that meet the chosen criterion, keeps time, station and likelihood of each record together and in order, and repeated or stricter filtering only removes more. Station lists, counts and per-station selections describe exactly the records present, and both language versions agree. Observations before a break receive the bias of the first later break of their own station, and observations after the last break or of stations without breaks receive none.',
 ['inputs','histories'],'All record lists, thresholds, decay constants and sequences of filters.',
 'Tests apply one filter to one fixture.',
 [A+'observationsource.py','src/cpp/eustace/analysis/break_points/break_points.cpp',S+'elements/bias_insitu_land.py'],[('policies','observationsource.py apply_policy'),('C++ policies','break_points.cpp apply_policy')],observe=['records after filtering'])
prop('C17','Submitted jobs never start before everything they read has been produced',
 'For every choice of iterations and stages, the generated descriptors and the submitted job dependencies together guarantee that under any schedule the batch system may choose, every run starts only after all runs that produce files it reads have finished, using the results of the intended iteration; every run of every requested stage is submitted exactly once. A failed or missing submission stops the chain with an error, and nothing that waits for a job starts when one of the runs of that job has failed.',
 ['schedules','configurations','fault_sequences'],'All iteration ranges, stage selections, run counts and batch sizes, and all schedules allowed by the dependencies.',
 'There are no tests of the job ordering at all.',
 ['src/roses/fullstace/advanced_standard/lsf_submission.py',S+'examples/jsonfiller.py'],[('dependency conditions','lsf_submission.py submit_eumopps_jobs'),('dataflow of descriptors','jsonfiller.py')],observe=['submission commands','descriptor operations'])
prop('C18','Merging daily products combines exactly the sources present and loses none',
 'Merging the products of several sources for a day yields, in every cell, the mean of exactly the sources that have data there with uncertainties propagated under the declared correlations, keeps each source\'s own fields alongside, and for a single source keeps its values. Absent sources are dropped together with their companions and correlations, and the source files are removed only after both merged files are complete.',
 ['inputs','crash_points','fault_sequences'],'All sets of present and absent sources, masks, values and correlations, and a failure at any write.',
 'Tests merge a few fixed files.',
 ['src/eustace/outputformats/filesmerger.py','src/eustace/outputformats/merge_multiple_outputs.py'],[('cleaning','filesmerger.py clean_list_of_outputs_to_merge'),('merge','filesmerger.py merge_multiple_files'),('delete last','merge_outputs_from_single_day')],observe=['files present','merged arrays'])
prop('C19','Mesh subdivision is a consistent hierarchy and every point has one triangle',
 'At every subdivision level the mesh is a closed surface: each edge is shared by exactly two triangles, the numbers of points, edges and triangles follow from the level, and each triangle\'s identifier is that of its parent with its own position appended. Every direction on the sphere is located in exactly one triangle at every level, nested inside the triangle found at the level above, with weights of its corners that are non-negative and sum to one.',
 ['inputs','configurations'],'All subdivision levels within reach and all directions including edges and corners.',
 'Tests check a few points at low levels.',
 [A+'mesh/mesh.py',A+'mesh/locator.py',A+'mesh/geometry.py',A+'mesh/locator_search_planes.pyx'],[('subdivision','mesh.py MeshIcosahedronSubdivision'),('location','locator.py')],observe=['points, triangles, edges','triangle numbers'])
prop('C20','Combined models keep every sub-model on its own block of the state',
 'When several model elements are combined, each element uses exactly its own contiguous block of the state and of the parameters, blocks follow the order of the elements and cover everything without overlap, and the combined prediction is the sum of the elements\' predictions with prior precision confined to each block. Setting and getting parameters are inverse and changing one parameter changes only its own element.',
 ['configurations','inputs'],'All lists of elements, linear or not, with any numbers of state variables and parameters.',
 'Tests combine two fixed elements.',
 [S+'elements/combination.py',S+'elements/element.py',S+'elements/bias.py',S+'elements/covariate.py'],[('block layout','combination.py')],observe=['design matrices, functions, precisions'])
prop('C21','Gridded fields are the area means of the analysis on the output grid',
 'The value of a grid cell is the mean, weighted by the cosine of latitude, of the values of the analysis (the sum over its components) at the places sampled evenly in that cell, and the uncertainty of a cell combines the means of the components\' uncertainties in quadrature; cells come in the order of the grid whatever the order of its latitudes and longitudes, the number of places per cell and the size of the blocks in which it is computed. The climatology fraction is the posterior over the prior variance of the single spatial component, and a fill value when there is not exactly one. A projector gives the same means of the expected value and of each sample, and standard deviations over samples, for the component and time it was evaluated for, and keeps a projection for another component or time only when told to.',
 ['inputs','configurations','histories'],'All regular grids, numbers of places per cell, block sizes, sets of components with or without a state, and histories of a projector.',
 'Tests use one small grid per method.',
 [S+'fileio/output_structure_rectilinear.py',S+'fileio/output_projector.py',S+'analysissystem.py'],[('cell means','output_structure_rectilinear.py Regridder'),('sum over components','analysissystem.py evaluate_expected_value'),('projector','output_projector.py Projector')],observe=['arrays returned'])
prop('C22','Regional mesh views and joined regional parameters agree with their regions',
 "A regional view of the mesh at any level contains exactly the parts of the chosen coarse triangle, or of it and of every triangle touching it, or everything; views within views keep to this. Its design weights are those of the whole mesh for places inside and none for places outside, and its own matrices are made of exactly its triangles and points. When regional parameters are joined, the parameters at every point are the means over exactly the regions that have the point (of scale and range, or of their logarithms in the stepwise form), a point of a single region keeps that region's values, and parameters set on an element are the ones read back in the same order.",
 ['inputs','configurations','histories'],'All levels, kinds of region, sequences of regions and regional parameters.',
 'Tests use one region of one mesh.',
 [S+'stats/spde/spherical_view.py',S+'stats/spde/spherical.py',S+'elements/local_view.py',S+'elements/local.py'],[('region membership','spherical.py neighbours_at_level, triangulation at super level'),('view matrices and merging','spherical_view.py SphereMeshViewSPDE, merge_local_parameterisations'),('hyperparameters','local_view.py')],observe=['active triangles and vertices','design matrices','joined parameters'])
prop('C23','Prior precisions, derivatives and their space-time layout agree',
 "Wherever a smooth random field is described, on one- or two-dimensional lattices with or without cyclic dimensions, on the sphere or part of it at any order, with scale and range alike everywhere or different at every point, the precision matrix is the one of that scale, range and order between true neighbours, and the derivative with respect to any parameter is exactly the slope of the precision. Elements in space and time, seasonal, factor and local elements put these matrices and the weights of places and times into the state in one and the same order for prior, design and derivative, seasonal terms share the parameters of their harmonic, and a nonlinear element's derivative is the slope of its prediction.",
 ['inputs','configurations'],'All lattices, spheres and regions, orders, parameters (one or one per point), directions of change, numbers of harmonics and nodes, places, times and states.',
 'Tests compare one derivative of one open one-dimensional lattice and one sphere, and fixed small designs.',
 [S+'stats/spde/lattice.py',S+'stats/spde/spherical.py',S+'elements/kronecker.py',S+'elements/kronecker_annual.py',S+'elements/seasonal.py',S+'elements/factor.py',S+'elements/local.py',S+'elements/spacetimespde.py'],[('lattice precision and derivative','lattice.py LatticeSPDE.build_Q, build_dQdp'),('spherical precision and derivative','spherical.py SphereMeshSPDE.build_Q, build_dQdp'),('layout','kronecker.py, seasonal.py, factor.py')],observe=['precision and derivative matrices','design matrices, functions and jacobians'])
prop('C24','Ice air temperatures come only from observed, quality-controlled ice',
 "For every cell of both hemispheres the ice model gives an air temperature (mean, minimum, maximum) exactly when there is land ice or at least 30 per cent sea ice, the skin temperature and its three uncertainties are present, the deviation and mean temperature are in range, the parts of the day it needs (day and night for the mean, night for the minimum, day for the maximum) were observed and agree with it, and it is not more than 10 K below the mean of at least two cells of the same kind of ice around it that pass themselves. The value and its uncertainty components are those of the regression of that hemisphere, kind of ice and variable on that day, and the totals combine them in quadrature with and without cloud. Both hemispheres appear at their own latitudes in one field; hemispheres, days or grids that do not fit are refused, existing outputs are never overwritten, and the output files hold all the fields.",
 ['inputs','configurations'],'All fields of temperatures, ice, observation counts and missing values, all coefficients and days, and all pairs of hemisphere files.',
 'Tests check single masks on 2 by 2 and 6 by 6 fields; the regression tests need data that are not available.',
 ['src/eustace/surfaceairmodel/model_ice.py','src/eustace/surfaceairmodel/model_ice_input_processing.py','src/eustace/surfaceairmodel/run_ice.py','src/eustace/surfaceairmodel/fileio/ice.py','src/eustace/surfaceairmodel/fileio/consistent.py'],[('quality control','model_ice_input_processing.py IceSurfaceTemperatureQualityControl'),('model and uncertainties','model_ice.py ModelIceObservableProcessor'),('both hemispheres','model_ice.py process_global'),('output','run_ice.py run_day')],observe=['fields of results','output files'])
prop('C25','Observation sources deliver exactly what their files hold',
 "Every observation source (stations, ships, lakes, gridded fields, two-hemisphere ice) delivers exactly the values of its file: one observation per station and day, record or grid box, in Kelvin, at its own place and time with its own uncertainty, and hidden exactly when the file marks it missing or, where asked for, it failed quality control, its station is reserved, or its elevation is unknown while altitudes are adjusted. Altitude adjustment adds 6.5 K per kilometre of height above the reference map, interpolated bilinearly and continued round in longitude, and 1.1 K per kilometre in quadrature to the uncertainty. Observations at the same place share one location and different places differ. Means of maximum and minimum are valid where both are. Preparing a day writes exactly the valid observations of that day and refuses a file whose locations disagree with the location table.",
 ['inputs','configurations'],'All contents of source files (any pattern of missing values, any numbers of records and stations), all quality flags, hold-out lists, elevations and reference maps, and all days.',
 'Tests read one or two fixed files per source.',
 ['src/eustace/preprocess/fileio/insitu_land.py','src/eustace/preprocess/fileio/insitu_ocean.py','src/eustace/preprocess/fileio/height_adjustment.py','src/eustace/surfaceairmodel/fileio/cubemap.py','src/eustace/surfaceairmodel/fileio/consistent.py','src/eustace/surfaceairmodel/fileio/lake.py','src/eustace/surfaceairmodel/fileio/land.py','src/eustace/surfaceairmodel/fileio/ocean.py','src/eustace/surfaceairmodel/fileio/ice.py','src/eustace/analysis/preparedailyfixed.py','src/eustace/analysis/preparedailymobile.py','src/eustace/analysis/preparelocationlookup.py'],[('stations','insitu_land.py ObservationSourceInsituLand'),('altitude adjustment','height_adjustment.py'),('gridded fields','cubemap.py ObservationSourceCubeMapGrid'),('prepared days','preparedailyfixed.py, preparedailymobile.py')],observe=['observations, locations and uncertainties delivered','prepared files'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
print(len(P))
