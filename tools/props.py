"""The properties, in one place: properties.jsonl and MANIFEST.json are
generated from here (tools/mkdocs.py) for every property that has a check."""

D = 'nimble/core/data/'
TYPES4 = 'List, Matrix, Sparse and DataFrame'

PROPS = [
 dict(id='C01', title='All data representations behave identically',
  statement='Every operation of the data API gives the same outcome (values, names, shape, element order, or a refusal) whichever of the four representations holds the data and however that object came to be. Arguments that are themselves data objects may be of any representation without changing the outcome.',
  over=['inputs', 'histories'],
  text='all tables, all API operations and arguments, all four representations of receiver and argument, all construction histories (direct, view, shuffled, transposed, appended, converted, mutated)',
  why='The unit tests run one hand written table per method and representation; agreement is a relation between representations over all inputs and histories, and internal state (sortedness of Sparse, column labels of DataFrame, dtype of Matrix) depends on history.',
  files=[D + 'base.py', D + 'list.py', D + 'matrix.py', D + 'sparse.py', D + 'dataframe.py', D + 'axis.py'],
  mech=[('per representation _*_implementation methods', D + '{list,matrix,sparse,dataframe}.py and *Axis.py'), ('Sparse sorted-state bookkeeping', D + 'sparse.py _sortInternal'), ('DataFrame column/index maintenance', D + 'dataframe.py')],
  observe=['return values, receiver and arguments read back with copy("pythonlist"), getNames()']),
 dict(id='C02', title='Point and feature operations follow the table model',
  statement='After any sequence of structural operations (extract, delete, retain, copy, insert, append, sort, permute, repeat, replace, transform, calculate, mapReduce, unique, setitem, replaceRectangle, transpose, renaming and so on) the object holds exactly the values, order and names that the same sequence gives on a plain table of labelled rows, and every returned object is what that table model returns. Selecting by index, negative index, name, range, query string or function picks the same points or features as the model.',
  over=['inputs', 'histories'],
  text='all tables, all valid arguments, all sequences of operations',
  why='Tests check single calls on fixed 3x3 tables; errors that depend on the previous operations, on zero/duplicate/missing values or on argument form are outside what they sample.',
  files=[D + 'axis.py', D + 'points.py', D + 'features.py', D + 'base.py'],
  mech=[('structural backend', D + 'axis.py _genericStructuralFrontend'), ('per representation structural implementations', D + '*Axis.py')],
  observe=['values and names read through the public accessors after every step']),
 dict(id='C03', title='Names, shapes and identifiers stay consistent',
  statement='After every operation an object\'s shape, dimensions, axis lengths and stored data agree, names are unique strings mapped to their own index and back, and resolving a name, index or negative index gives the same position everywhere. Names follow their points and features through every operation, and name changes alter nothing else.',
  over=['histories', 'inputs'],
  text='all histories of operations and name changes (full, partial, cleared names; empty axes), all representations',
  why='Name lists and name->index maps are kept separately and rebuilt lazily; only histories that interleave renaming with structural change expose a stale map, and tests start from fresh objects.',
  files=[D + 'axis.py', D + 'base.py', D + '_dataHelpers.py'],
  mech=[('lazy name and inverse maps', D + 'axis.py names/namesInverse'), ('checkInvariants', D + 'base.py')],
  observe=['getNames, getName, getIndex, getIndices, hasName, checkInvariants after every step']),
 dict(id='C04', title='Operations never change inputs or share state',
  statement='An operation that returns a new object leaves the object it is called on, and every argument the user passed, exactly as they were; an in-place operation changes only its receiver. Objects returned by operations share no mutable state with their sources (views excepted): modifying either one later is never visible through the other.',
  over=['inputs', 'histories'],
  text='all operations and argument objects (data objects of any representation, lists, arrays, sparse matrices, frames), all later modifications of source or result',
  why='Aliasing only shows when one of the two objects is modified afterwards; tests compare results and throw the objects away.',
  files=[D + 'base.py', D + 'axis.py', D + '*Axis.py', 'nimble/core/_createHelpers.py'],
  mech=[('defensive copies in each implementation', D + '*.py'), ('copyData handling of raw input', 'nimble/core/_createHelpers.py initDataObject')],
  observe=['deep fingerprint of receiver, arguments and results before and after; results vandalised in place through several mutation paths']),
 dict(id='C05', title='Views show their source live and cannot modify it',
  statement='A view reads exactly like a copy of the region of the source it covers, for every read operation and for views of views, and follows value changes made in the source. Every attempt to modify data through a view is refused and leaves view and source unchanged.',
  over=['inputs', 'histories'],
  text='all regions, nestings, representations, read operations and attempted modifications',
  why='View classes reimplement access per representation with index offsets; tests cover a few regions of few operations.',
  files=[D + 'views.py', D + 'list.py', D + 'matrix.py', D + 'sparse.py', D + 'dataframe.py'],
  mech=[('BaseView and per representation view classes', D + 'views.py, createView in each representation')],
  observe=['results of read operations on the view compared to those on the model region; exceptions of mutators']),
 dict(id='C06', title='A rejected call leaves every object as it was',
  statement='When a call fails because of its arguments (bad identifier, wrong shape or name set, invalid option, non applicable type) the receiver and all arguments are left exactly as before the call. The same holds when a user supplied function raises, or returns something unusable, in the middle of an operation, and when values turn out to be unsuitable on the way: the object has the data, names, dimensions and paths it had before and is consistent and usable.',
  over=['inputs', 'fault_sequences'],
  text='all invalid and almost valid arguments of every modifying method, and user callbacks that raise or misbehave at any invocation, on all types in two and more dimensions',
  why='Tests assert that the exception is raised, not what state is left behind; the failing invocation number is a fault point tests never vary.',
  files=[D + 'axis.py', D + 'base.py', D + 'points.py', D + 'features.py'],
  mech=[('validation before mutation', D + 'axis.py, base.py')],
  observe=['fingerprints before and after the failing call; faults injected at the k-th callback invocation']),
 dict(id='C07', title='Arithmetic, logical and equality operations are exact',
  statement='Arithmetic, logical, equality and matrix operators, in-place operators, stretched (broadcast) operations and element-wise functions give at every position the value that Python gives for the scalar operation on the elements there, or refuse. Result names follow the documented merge of the operand names.',
  over=['inputs'],
  text='all operand tables, scalars, representations on either side, shapes for stretching, name combinations, in-place and reflected forms',
  why='Implementations delegate to numpy, scipy or pandas per pair of representations with special cases for zeros, dtype and names; tests sample a few pairs.',
  files=[D + 'base.py', D + 'stretch.py', D + 'sparse.py'],
  mech=[('binary operation dispatch and name merging', D + 'base.py _binaryOperations_implementation'), ('Stretch', D + 'stretch.py')],
  observe=['result values and names; operands before and after']),
 dict(id='C08', title='Transpose, flatten and high dimension forms are lossless',
  statement='Transposing twice, flattening then unflattening, and storing then reading data of more than two dimensions restore the original values, dimensions, order and (where documented) names. Element order of flattening and of nested dimensions is the documented one for every representation.',
  over=['inputs', 'histories'],
  text='all shapes of 1 to 5 dimensions, orders, representations, nested python lists and objects',
  why='Tests use a handful of shapes, mostly square and small, where index arithmetic errors cancel.',
  files=[D + 'base.py', D + '_dataHelpers.py', 'nimble/core/_createHelpers.py'],
  mech=[('flatten/unflatten implementations', D + 'base.py'), ('dimension bookkeeping', D + 'base.py _dims')],
  observe=['values by index, dimensions, names, copy to nested lists']),
 dict(id='C09', title='merge is the relational join it documents',
  statement='Merging two objects gives exactly the points and features of the documented set operation for every combination of point and feature mode (strict, union, intersection, left), matching by names or by the key feature, with missing values only where neither side has a value and with conflicts refused. The right object is unchanged, and the order of points and features is the documented one.',
  over=['inputs', 'configurations'],
  text='all pairs of tables, name overlaps and orders, key columns with unmatched, duplicated, zero or missing keys, modes, representations',
  why='Eight mode combinations times name overlap patterns times four representations; tests use a few overlaps and no random keys.',
  files=[D + 'base.py', D + 'list.py', D + 'matrix.py', D + 'sparse.py', D + 'dataframe.py'],
  mech=[('merge backend', D + 'base.py merge, _genericMergeFrontend; _merge_implementation per representation')],
  observe=['merged values, names, order; right operand']),
 dict(id='C10', title='Creating and converting data preserves it exactly',
  statement='Creating an object from any supported raw form (lists, dicts, arrays, sparse matrices, frames, other data objects) holds the values and names given, with the documented treatment of headers and missing values, and copying out to any supported form and back gives an equal object. The raw input is left as it was unless it was handed over explicitly.',
  over=['inputs', 'configurations'],
  text='all raw input forms and dtypes, name arguments, header options, treatAsMissing/replaceMissing, target forms, orientations',
  why='The cross product of input form, target form, orientation, names and dtype is sampled by tests for a fixed table without missing or mixed values.',
  files=['nimble/core/create.py', 'nimble/core/_createHelpers.py', D + 'base.py'],
  mech=[('extract and normalise raw data', 'nimble/core/_createHelpers.py initDataObject, extractNames*, replaceMissing'), ('copy', D + 'base.py copy')],
  observe=['values and names of the created object, of each copied-out form, and of the raw input afterwards']),
 dict(id='C11', title='Saving and loading restores the object',
  statement='Writing an object to disk and loading it back gives an equal object (values, names, shape and, where the format keeps it, type) for every supported format and name setting. Saving does not change the object, and does not damage other files.',
  over=['inputs', 'configurations'],
  text='all tables representable in the format, names with separators, quotes and unicode, representations, views, high dimension objects, formats csv, mtx, hdf5 and pickle',
  why='Round trip is a relation over all contents; tests write fixed small numeric tables.',
  files=[D + 'base.py', D + 'list.py', D + 'matrix.py', D + 'sparse.py', D + 'dataframe.py', 'nimble/core/_createHelpers.py'],
  mech=[('_saveCSV/_saveMTX implementations', D + '*.py'), ('loaders', 'nimble/core/_createHelpers.py')],
  observe=['object loaded from the written file, bytes of the file, the saved object after saving']),
 dict(id='C12', title='Load options equal loading everything then selecting',
  statement='Loading with options (kept points or features, name and header settings, row limits, missing value treatment, separators, conversions) gives the same object as loading all of the source and then applying the same selection and treatment, in the requested order. The same source given as path, file object or raw data gives the same object, independent of what was loaded before.',
  over=['inputs', 'configurations', 'histories'],
  text='all csv/mtx/raw sources, all combinations of options, sequences of loads in one process',
  why='Option interactions (names in first column, header row, kept subsets, order) are combinatorial; tests pin individual options.',
  files=['nimble/core/create.py', 'nimble/core/_createHelpers.py'],
  mech=[('selective csv reader', 'nimble/core/_createHelpers.py createDataFromFile, _loadcsvUsingPython'), ('dialect detection', 'nimble/core/_createHelpers.py')],
  observe=['loaded objects compared to a reference selection; global csv state']),
 dict(id='C13', title='Query strings and match functions mean what they say',
  statement='A query string selects exactly the elements, points or features whose value satisfies the written comparison, whatever the spacing, names containing operators or keywords, and value types; ambiguous or malformed queries are refused. Every match function agrees with its definition on scalars and, for any/all forms, with the quantifier over the data object.',
  over=['inputs'],
  text='all names, operators, values, spacings and element types (numbers, strings, missing, booleans, dates)',
  why='Query parsing is string dependent; tests enumerate a few strings over one dataset.',
  files=['nimble/match/query.py', 'nimble/match/match.py', D + 'axis.py'],
  mech=[('QueryString parsing', 'nimble/match/query.py'), ('match functions', 'nimble/match/match.py')],
  observe=['selected positions, boolean answers, exceptions']),
 dict(id='C14', title='Filling replaces exactly the matched elements',
  statement='fillMatching and the fill functions change exactly the elements that match (within the limited points or features), to the value that the documented strategy derives from the unmatched elements, and leave every other element and all names as they were. The result does not depend on the representation.',
  over=['inputs', 'configurations'],
  text='all tables with matches anywhere (leading, trailing, consecutive, all, none), strategies, match conditions, axis limits, representations',
  why='Edge positions of missing values and limits are combinatorial; tests use one pattern per strategy.',
  files=[D + 'base.py', D + 'axis.py', 'nimble/fill/fill.py'],
  mech=[('fillMatching backend', D + 'axis.py _fillMatching'), ('fill strategies', 'nimble/fill/fill.py')],
  observe=['values before and after, compared to a reference of each strategy']),
 dict(id='C15', title='Grouping, splitting, combining and statistics are exact',
  statement='groupByFeature partitions the points by key value without loss or duplication; splitting, collapsing, combining and one-hot style feature operations move every value to the documented place; statistics, similarities and normalizations equal their mathematical definition over the data, with missing values treated as documented.',
  over=['inputs'],
  text='all tables incl. zeros, missing values, single points or features, constant columns, all representations and views',
  why='Definitions quantify over all data; tests compare a fixed table to a hand computed answer.',
  files=[D + 'base.py', D + 'points.py', D + 'features.py', 'nimble/calculate/statistic.py', 'nimble/calculate/normalize.py', 'nimble/calculate/similarity.py'],
  mech=[('groupByFeature', D + 'base.py'), ('splitByCollapsingFeatures, combineByExpandingFeatures', D + 'points.py'), ('splitByParsing, replaceFeatureWithBinaryFeatures', D + 'features.py'), ('statistics', 'nimble/calculate/statistic.py')],
  observe=['results compared to reference computations on plain lists']),
 dict(id='C16', title='Randomness is reproducible, controlled and isolated',
  statement='With the same seed every random operation of the library gives the same result, whatever ran before the seed was set; code using an alternate or explicit seed leaves the state of the main generator exactly as it found it, also when the code raises. Random operations keep what they promise: shuffles are permutations, samples are subsets without unintended repetition, generated data has the requested shape, sparsity and type.',
  over=['histories', 'inputs', 'fault_sequences'],
  text='all interleavings of random operations, seeding and alternate control, incl. exceptions inside controlled code',
  why='Isolation is about what a later draw returns after arbitrary histories; tests set a seed immediately before one call.',
  files=['nimble/random/randomness.py', D + 'axis.py', 'nimble/core/learn.py', 'nimble/core/_learnHelpers.py'],
  mech=[('generator state stack', 'nimble/random/randomness.py'), ('alternateControl', 'nimble/random/randomness.py')],
  observe=['generator draws before/after, results of random operations under equal seeds']),
 dict(id='C17', title='Train/test splits and folds partition the data',
  statement='Splitting into training and testing (or validation) sets puts every point in exactly one set, keeps each point aligned with its label and names, and uses the requested proportions; cross validation uses every point for testing exactly once per pass, never trains on a point it tests in that fold, and reports the performance computed from exactly those predictions.',
  over=['inputs', 'configurations', 'schedules'],
  text='all data sizes, fractions, fold counts, label arguments, orders, fold iterators and score modes',
  why='Leakage between training and testing is invisible in scores; tests check scores and shapes, not which points each training call saw.',
  files=[D + 'base.py', 'nimble/core/tune.py', 'nimble/core/_learnHelpers.py', 'nimble/core/learn.py'],
  mech=[('trainAndTestSets', D + 'base.py'), ('KFold and other validators', 'nimble/core/tune.py'), ('fold iteration', 'nimble/core/_learnHelpers.py')],
  observe=['recording learner that logs every point it trained on and predicted']),
 dict(id='C18', title='Training, applying and testing agree with each other',
  statement='For every learner, training then applying, the combined train-and-apply and train-and-test calls, and calling the wrapped package directly with the same arguments give the same predictions and performance, for every data representation and label form. Calls never change the data they are given, trained learners do not depend on later changes to the training data, and invalid arguments are refused.',
  over=['inputs', 'configurations', 'histories'],
  text='learners of scikit-learn, built-in and custom learners, argument combinations, representations, label forms (index, name, object), score modes and multiclass strategies',
  why='Tests run a few learners on fixed data; equivalence of routes is a relation over learners, arguments and data forms.',
  files=['nimble/core/learn.py', 'nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/interfaces/custom_learner.py'],
  mech=[('argument translation and validation', 'nimble/core/interfaces/universal_interface.py'), ('TrainedLearner', 'nimble/core/interfaces/universal_interface.py')],
  observe=['predictions, scores and performances through each route; direct scikit-learn results']),
 dict(id='C19', title='Hyperparameter search tries what it says and keeps the best',
  statement='Every tuning method evaluates only argument combinations taken from the given search space (exhaustively and without repetition for the brute force method), records each with the performance its validation really produced, and reports as best a combination whose recorded performance no other recorded one beats in the optimal direction of the performance function. The learner then returned is trained with that best combination.',
  over=['inputs', 'configurations'],
  text='all Tune grids, tuning methods, limits, performance functions (minimising and maximising), validation methods',
  why='Tests check one tie-free search each with a minimising function; wrong directions and skipped candidates show only for other surfaces.',
  files=['nimble/core/tune.py', 'nimble/core/learn.py'],
  mech=[('Tuning selectors', 'nimble/core/tune.py'), ('Validators', 'nimble/core/tune.py')],
  observe=['a learner whose performance surface is a known function of its arguments records every training call']),
 dict(id='C20', title='The log records each logged operation exactly once',
  statement='With logging on, every logged operation appends exactly one entry of the right type describing the call and never alters data or results; with logging off (globally or per call) nothing is appended. Entries, once written, are kept unchanged and searchable by every filter, across sessions and after operations that failed, and a query of the log returns exactly the entries that satisfy it.',
  over=['histories', 'configurations', 'crash_points', 'schedules'],
  text='all sequences of logged, unlogged, nested and failing operations and settings, process kills between operations, several processes writing at once',
  why='Exactly-once is a property of the whole history (nesting, failures, toggles); tests look for one entry after one call.',
  files=['nimble/core/logger/session_logger.py'],
  mech=[('SessionLogger and decorators', 'nimble/core/logger/session_logger.py')],
  observe=['rows of the log database read independently through sqlite, showLog output']),
 dict(id='C21', title='Settings behave as layered store and survive crashes',
  statement='Reading a setting gives the last value set in this session, else the saved one, else the default; unsaved changes are never written by other operations, and saving writes exactly the requested changes so a new session reads them back. A crash at any point while saving leaves a configuration that still loads with every setting either old or new.',
  over=['histories', 'crash_points'],
  text='all sequences of get/set/setDefault/saveChanges/reset over sections and options, values of any text, kill points during saving',
  why='Tests do single set/save steps; layering and crash consistency are over histories and interruption points.',
  files=['nimble/core/configuration.py'],
  mech=[('SessionConfiguration', 'nimble/core/configuration.py')],
  observe=['settings read in process and by a fresh process; the configuration file after each injected failure']),
 dict(id='C22', title='Performance and calculator functions match definitions',
  statement='Every performance function equals its mathematical definition on all known/predicted label pairs, is independent of the representation of either argument and of the order of the points, reports its optimal direction correctly and refuses mismatched or missing input. The linear algebra and element calculators equal their definitions and leave their arguments unchanged.',
  over=['inputs'],
  text='all label vectors (classes of any type, constant, perfect, inverted; scores), matrices, representations',
  why='Closed form definitions over all inputs; tests pin some hand computed cases.',
  files=['nimble/calculate/loss.py', 'nimble/calculate/similarity.py', 'nimble/calculate/binary.py', 'nimble/calculate/linalg.py', 'nimble/calculate/utility.py', 'nimble/calculate/confidence.py'],
  mech=[('performanceFunction decorator', 'nimble/calculate/utility.py'), ('confusionMatrix', 'nimble/calculate/similarity.py')],
  observe=['function values compared to reference formulas']),
 dict(id='C23', title='Built-in and custom learners honour their definitions',
  statement='The built-in learners compute their documented algorithm (least squares and ridge solutions, majority of the k nearest neighbours, nearest neighbour imputation) on all valid data, and a user-defined learner is called with exactly the data, arguments and label form it declares, whatever representation the user passed. Multiclass strategies combine the underlying learner\'s answers as documented.',
  over=['inputs', 'configurations'],
  text='all small datasets incl. ties, duplicates and missing values, argument values, representations, custom learner signatures',
  why='Tests train on one dataset each; the algorithms\' definitions hold over all data.',
  files=['nimble/learners/knn_classification.py', 'nimble/learners/knn_imputation.py', 'nimble/learners/ridge_regression.py', 'nimble/learners/multioutput_ridge_regression.py', 'nimble/learners/multioutput_linear_regression.py', 'nimble/core/interfaces/custom_learner.py', 'nimble/core/learn.py'],
  mech=[('learner implementations', 'nimble/learners/*.py'), ('CustomLearner', 'nimble/core/interfaces/custom_learner.py')],
  observe=['predictions, learned coefficients, what a recording custom learner received']),
 dict(id='C24', title='Displayed forms agree with the data within their limits',
  statement='Printing an object or its points or features never fails and never changes it. Every name and value displayed is that of the position it is displayed at, whatever the type, history, number of dimensions or emptiness; the points and features displayed are those asked for, or the first and last ones with a mark where the middle was left out; line, width, column and precision limits are obeyed and nothing is left out that fits.',
  over=['inputs', 'configurations'],
  text='all shapes (including 0 points or features), types, views, names, values, and combinations of limits, ranges and counts of points/features, terminal sizes',
  why='The layout depends on shape, widths of every cell and six limits at once; tests pin a few pictures.',
  files=['nimble/core/data/base.py', 'nimble/core/data/axis.py', 'nimble/core/data/_dataHelpers.py'],
  mech=[('Base.toString, show, __repr__', 'nimble/core/data/base.py'), ('Axis.__repr__', 'nimble/core/data/axis.py')],
  observe=['printed text, cut into cells and compared with elements read one by one']),
 dict(id='C25', title='Plots draw the values of the object',
  statement='Every plotting method draws exactly the data asked for: image cells, coordinates, bars, bins, means with their intervals and trend lines equal their definitions over the object, at the position labelled with the right names and groups, whatever the type, history and form of identifiers. One call draws on one figure (the one of its figure id until shown), which is the figure saved and shown, and changes no data.',
  over=['inputs', 'configurations', 'histories'],
  text='all plot methods over tables with names, groups (text or numbers), missing and boolean values, orders of identifiers; sequences of plots on several figures',
  why='The tests only look whether a file was written; wrong columns or figures draw as nicely as the right ones.',
  files=['nimble/core/data/base.py', 'nimble/core/data/axis.py', 'nimble/core/data/_dataHelpers.py'],
  mech=[('Base.plot methods', 'nimble/core/data/base.py'), ('Axis._plotComparison', 'nimble/core/data/axis.py'), ('plot helpers', 'nimble/core/data/_dataHelpers.py')],
  observe=['artists read back from the matplotlib figures; calls to savefig and show recorded by stand-ins']),
 dict(id='C26', title='A trained learner changes only when it is trained',
  statement='What a TrainedLearner predicts, scores and reports about itself (arguments, name, type, seed, attributes) depends only on the training it received. Nothing else changes it: modifying the training or test objects, labels or arguments afterwards, modifying what it returned, training, tuning or testing other learners of the same kind, applying or testing it, failed calls of any kind, saving it, or retraining a learner loaded from its file. A retrain gives what a new training with the same data, arguments and seed gives; a retrain or incremental training that fails leaves it as it was. No learning function changes the objects it is given.',
  over=['inputs', 'histories', 'fault_sequences'],
  text='histories of uses, modifications, other trainings and failures, with learners of nimble, scikit-learn and the user, wrapped multi class strategies, supervised and not, on all object types',
  why='Tests look at a learner right after it was trained; shared references and half done retrainings only show later.',
  files=['nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/custom_learner.py', 'nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/learn.py', 'nimble/core/_learnHelpers.py'],
  mech=[('TrainedLearner', 'nimble/core/interfaces/universal_interface.py'), ('_incrementalTrainer', 'nimble/core/interfaces/custom_learner.py'), ('input and output transformation', 'nimble/core/interfaces/scikit_learn_interface.py')],
  observe=['predictions, scores and reported attributes before and after every step; exact pictures of all objects given to learning functions']),
 dict(id='C27', title='What is told about learners is true',
  statement='The lists of learners, parameters, defaults and types describe exactly what can be called: every listed learner is found under every spelling of its package and as a class object, its parameters are those its methods accept, giving any listed default explicitly changes nothing, and unknown learners or parameters and missing required ones are refused before anything is trained. A learner receives exactly the arguments given (in the dictionary, by keyword, as nested Init objects) and the defaults otherwise, each in the method which declares it. Printed forms equal the lists; answers and arguments are independent of later changes to them.',
  over=['inputs', 'configurations'],
  text='all learners of scikit-learn, keras and nimble in every spelling; user defined learners of random signatures, redefined under the same name; subsets of arguments in both forms; nested Init objects',
  why='Tests look at a few learners; the answers come from introspection, caches and per package special cases, and a parameter sent to the wrong method or dropped usually still trains.',
  files=['nimble/core/learn.py', 'nimble/core/_learnHelpers.py', 'nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/interfaces/custom_learner.py', 'nimble/core/interfaces/keras_interface.py'],
  mech=[('learnerNames, learnerParameters, learnerParameterDefaults, learnerType', 'nimble/core/learn.py'), ('_paramQuery, argument validation, _argumentInit', 'nimble/core/interfaces/universal_interface.py')],
  observe=['answers and printed text against signatures inspected independently; arguments recorded by user defined learners; parameters of the trained package objects']),
]
TECH = {}
NOTES = {}
DEFAULT_TECH = ('runtime monitoring: randomised and stress workloads on the '
                'real code with an online reference-model oracle')
DEFAULT_NOTE = (
    'Exploration: every executed case is judged by an oracle that does not '
    'share code with nimble (a plain python table model or a closed-form '
    'reference). Held on the executions observed; counts of monitored events '
    'and distinct situations are in the evidence. Trusts CPython, the '
    'installed numpy/scipy/pandas/scikit-learn and the harness; object '
    'dtype data is not exercised in Sparse because the installed scipy '
    'cannot store it.')
MANIFEST_NOTES = (
    'One harness (run.sh, vlib/) drives every check: cases are seeded by '
    '(VERIF_SEED, property, kind, index), run in 8 forked workers inside a '
    'scratch HOME, and are replayable with '
    '"bash run.sh <ID> --replay <file>". No hooks were added to /repo; the '
    'monitors observe through the public API, recording learners and '
    'call-outs. known_findings.json lists genuine defects found.')
