#!/usr/bin/env python3
"""
Write properties.jsonl and MANIFEST.json from the table below; a property is
claimed if it has a harness in mc/props.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = 'openquake/commonlib/'

# id, title, statement, over, quantifier text, why tests cannot settle it,
# files, mechanisms [(name, where)], what is enumerated
P = []


def prop(id, title, statement, over, text, why, files, mech, technique):
    assert len(title) <= 80, (id, len(title))
    assert not any(p['id'] == id for p in P), id
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech]),
        technique=technique))

ST = 'stateless model checking of the real code: '

# ------------------------------ records ---------------------------------- #
prop('R01', 'Tables enforce their unique constraints and stay consistent',
     'Whatever the history of insertions, replacements and deletions, a '
     'table contains no two records with the same primary key or the same '
     'value of any other unique constraint, and a lookup by primary key '
     'returns exactly the record currently stored with that key. An '
     'operation which would introduce a duplicate is rejected with an error '
     'naming the duplicated values and leaves the table, including its '
     'lookups, unchanged.',
     ['histories'], 'all the sequences of operations on a table',
     'The tests build a couple of tables and try one duplicated append; they '
     'never mix replacements, deletions and rejected operations.',
     [LIB + 'record.py'],
     [('unique indices', 'record.Table.insert/__setitem__/__delitem__'),
      ('lookup', 'record.Table.getrecord')],
     ST + 'all operation histories on a table, against a list model')
prop('R02', 'Foreign keys: only records with an existing parent are accepted',
     'A set of tables accepts a record if and only if, for each foreign key '
     'of its type, the referenced table contains a record with that key, and '
     'otherwise rejects it with a foreign key error leaving all the tables '
     'unchanged. Accepted records end up in the table of their type, in the '
     'order of insertion; iteration returns the nonempty tables in the order '
     'of definition of the record types.',
     ['histories'], 'all the sequences of insertions in a set of tables',
     'The tests only insert consistent records in the right order.',
     [LIB + 'record.py', LIB + 'converter.py'],
     [('foreign key check', 'record.TableSet.check_fk/insert/insert_all')],
     ST + 'all insertion histories on table sets, against a dictionary model')
prop('R03', 'Records are valid exactly when all their fields are',
     'A record is valid if and only if every field is accepted by its '
     'validator and every constraint of its type (including the inherited '
     'ones) holds; casting it gives a value of the right type for each field '
     'or one error naming exactly the invalid fields, in order. Searching '
     'the invalid records of a sequence reports each of them with its '
     'position, and a table is valid if and only if all its records are.',
     ['inputs'], 'all the patterns of valid and invalid fields',
     'The tests check one record with one invalid field.',
     [LIB + 'record.py', LIB + 'records.py'],
     [('validation', 'record.Record.is_valid/cast/to_tuple, find_invalid')],
     ST + 'all validity patterns of rows, against a reference validator')
prop('R04', 'Records and tables behave as sequences of texts',
     'A record has exactly one text for each field, in the order of '
     'definition, taken from the positional and keyword arguments or from '
     'the default of the field; the fields can be read and assigned by '
     'position or name, and assigning an invalid text fails and changes '
     'nothing. Two records, tables or plain sequences are equal if and only '
     'if they have the same length and content, and different otherwise; '
     'subtypes inherit fields, keys, defaults and constraints.',
     ['inputs', 'histories'],
     'all the ways of building, assigning and comparing records',
     'The tests build a few records with positional arguments only.',
     [LIB + 'record.py'],
     [('generated constructor', 'record.MetaRecord.mkinit'),
      ('comparisons', 'record.Record/Table __eq__ and __ne__')],
     ST + 'all argument splits, assignments, pairs and class hierarchies')

# ------------------------------ validators ------------------------------- #
prop('V01', 'Numeric validators accept exactly the numbers in their range',
     'A numeric validator returns the value of a text which represents a '
     'number inside its (closed) range and rejects any other text, including '
     'the ones which are not numbers and NaN, always with a value error. The '
     'optional version also accepts the empty text, and nothing else, as a '
     'missing value.',
     ['inputs'], 'all the texts',
     'The tests check a couple of texts per validator, far from the limits.',
     [LIB + 'valid.py'],
     [('ranges', 'valid.longitude, latitude, positiveint, positivefloat, '
       'FloatRange'), ('optional', 'valid.NoneOr')],
     ST + 'all short texts over a numeric alphabet and all boundary floats')
prop('V02', 'Text validators accept exactly the texts of their language',
     'Names are identifiers, name lists are one or more identifiers '
     'separated by spaces, booleans are 0, 1, false, true in lowercase, '
     'choices are exactly the listed words, intensity measure types are the '
     'listed ones or SA with a period in parentheses; nothing is accepted '
     'because it merely starts like a valid text. Accepted texts give the '
     'documented value, all the others give a value error.',
     ['inputs'], 'all the texts',
     'The tests check a few texts per validator, never with a valid prefix.',
     [LIB + 'valid.py'],
     [('regular expressions', 'valid.Regex, name, IMTstr'),
      ('choices', 'valid.Choice, boolean, namelist')],
     ST + 'all short texts and all mutants of the known words')

# ------------------------------ general ---------------------------------- #
prop('G01', 'Splitting in blocks conserves items and respects weight and kind',
     'Splitting a sequence by weight gives blocks which, concatenated, are '
     'the items with positive weight in the original order; each block has '
     'items of a single kind, has as weight the sum of their weights, which '
     'does not exceed the maximum unless the block has a single item, and '
     'cannot take the first item of the next block. Items of weight zero '
     'have no effect at all; negative weights and non-positive maximum '
     'weights are value errors.',
     ['inputs'], 'all the sequences of weights and kinds',
     'The tests use a handful of sequences, one with kinds, none with zero '
     'weights.',
     [LIB + 'general.py'], [('greedy loop', 'general.block_splitter')],
     ST + 'all short sequences of weights and kinds, against a greedy model')
prop('G02', 'Splitting in a given number of blocks is balanced',
     'Splitting a sequence in a suggested number of blocks is the same as '
     'splitting it with a maximum weight equal to the total weight divided '
     'by the number, rounded up; hence items of weight one and the same kind '
     'never give more blocks than suggested. A non-positive suggestion is '
     'rejected, and the items can come from an iterator.',
     ['inputs'], 'all the sequences with a positive total weight and hints',
     'The tests check two hints on one sequence.',
     [LIB + 'general.py'], [('max weight', 'general.split_in_blocks')],
     ST + 'all short sequences and hints, against a greedy model')
prop('G03', 'Weighted sequences know their weight under any additions',
     'After any history of appends, insertions, extensions, sums and merges '
     'the items of a weighted sequence are the ones of the plain list with '
     'the same history and its weight is the sum of their weights; sums and '
     'merges leave their operands unchanged. Weighted sequences are equal '
     'to the sequences with the same items, different from the others, and '
     'ordered by weight.',
     ['histories'], 'all the sequences of additions',
     'The tests only look at the results of the splitters.',
     [LIB + 'general.py'], [('weight', 'general.WeightedSequence')],
     ST + 'all operation histories on two sequences, against lists')
prop('G04', 'Deep comparison tells equal structures from different ones',
     'The deep comparison of two structures answers true with an empty '
     'message if they have the same shape and the same leaves, up to the '
     'precision for the numbers and to the excluded attributes at any '
     'depth, and false with a nonempty message otherwise. It is symmetric '
     'and never fails, whatever the types of the two objects.',
     ['inputs'], 'all the pairs of (acyclic) structures',
     'No test calls it directly on structures which are different.',
     [LIB + 'general.py'], [('recursion', 'general.deep_eq, _deep_eq')],
     ST + 'all pairs of structures of bounded depth, against a reference')
prop('G05', 'Basic utilities: distinct, ceil, str2bool, temporary files',
     'Removing duplicates keeps the first occurrence of each key in order; '
     'the rounded up division is the smallest integer not less than the (float) quotient and rejects non-positive divisors; '
     'exactly the words true, yes, t and 1 in any case are true. A temporary '
     'file has a new name with the given prefix and suffix in the given '
     'directory, created if missing, contains exactly the given content, and '
     'no file descriptor is left open.',
     ['inputs'], 'all the arguments',
     'There are no tests for these functions.',
     [LIB + 'general.py'],
     [('functions', 'general.distinct, ceil, str2bool, writetmp')],
     ST + 'all arguments over small alphabets, with tracked descriptors')

# ------------------------------ archives --------------------------------- #
prop('C01', 'Memory, directory and zip archives are interchangeable',
     'Whatever the history of writings, readings, closings and reopenings, '
     'an archive contains the files written and closed with their last '
     'content, whether it is stored in memory, in a directory or in a zip '
     'file. Reading always starts from the beginning of the file, several '
     'readers are independent, listing by prefix and membership agree with '
     'the content, and opening a missing file raises the same error '
     'everywhere.',
     ['histories'], 'all the sequences of operations on an archive',
     'The tests use an archive to write once and read once.',
     [LIB + 'csvmanager.py'],
     [('archives', 'csvmanager.ZipArchive, DirArchive, MemArchive'),
      ('delayed writing', 'csvmanager.TempFile.close, ZipArchive.close')],
     ST + 'all operation histories on three archives and a model in lockstep')
prop('C02', 'Records written in CSV files are read back unchanged',
     'Reading the CSV file of a record type gives back exactly the records '
     'written, in order, whatever their content (separators, quotes, line '
     'ends, empty fields, bytes), with or without header, in any kind of '
     'archive. With headers, a file with a wrong header is rejected with an '
     'error reporting the file, the line, the wrong and the right header.',
     ['inputs'], 'all the contents of the records and of the headers',
     'The tests use plain contents and only right headers.',
     [LIB + 'csvmanager.py'],
     [('reading and writing', 'csvmanager.CSVManager.read/write/readtable')],
     ST + 'all short cells over a hostile alphabet, all wrong headers')
prop('C03', 'Reading an archive has no side effects',
     'Any operation which only reads an archive of CSV files (reading '
     'records completely or not, building tables and nodes, converting into '
     'another archive, validating, listing, closing) gives the same result '
     'whatever has been read before with the same manager or archive, and '
     'never changes the content of the archive.',
     ['histories'], 'all the sequences of read-only operations',
     'The tests read each archive once with each manager.',
     [LIB + 'csvmanager.py'],
     [('per-manager state', 'csvmanager.CSVManager.read, __enter__, '
       '__exit__'), ('opened files', 'csvmanager.Archive.open/close')],
     ST + 'all sequences of read-only operations, against the same '
     'operation alone')
prop('C04', 'Validation of an archive reports all and only the invalid records',
     'Validating an archive reports exactly the records with some invalid '
     'field, for all the files of all the models in it, each with the file '
     'name, the position of the row and of the invalid columns and their '
     'errors, in the order of the rows. With a limit, exactly that number of '
     'them is reported, or all if they are fewer.',
     ['inputs'], 'all the positions of the invalid fields and all the limits',
     'The tests have a single invalid file.',
     [LIB + 'csvmanager.py', LIB + 'record.py', LIB + 'records.py'],
     [('search', 'csvmanager.CSVManager.find_invalid, record.find_invalid')],
     ST + 'all single and double corruptions of all the fields')
prop('C05', 'Models in the same archive are independent',
     'A manager for the files with a given prefix reads, writes, validates '
     'and converts them as if the files with other prefixes, of unknown '
     'types or with unrelated names were not there. A manager without files '
     'of its own uses the only model of the archive, and fails if there are '
     'none or many; converting the whole archive creates one XML file per '
     'model.',
     ['configurations'], 'all the mixtures of models in an archive',
     'The tests have archives with one model, or check only that two models '
     'are an error.',
     [LIB + 'csvmanager.py'],
     [('managers', 'csvmanager.CSVManager._getmanagers/_getmanager')],
     ST + 'all assignments of models to prefixes')
prop('C06', 'The conversion script converts both ways and refuses bad input',
     'Converting an XML model into a directory or zip archive of CSV files '
     'and back with the script gives an equivalent model and leaves its '
     'input and the unrelated files alone. If the CSV files contain invalid '
     'records nothing is converted, the errors are printed up to the given '
     'limit, and the script ends with a failure stating their number.',
     ['inputs', 'configurations'],
     'all the models, kinds of archives, and invalid cells',
     'There are no tests for the script.',
     ['bin/NRMLconvert.py', LIB + 'csvmanager.py'],
     [('script', 'bin/NRMLconvert.py main, print_invalid'),
      ('conversions', 'csvmanager.CSVManager.convert_to_nrml/'
       'convert_from_nrml')],
     ST + 'all combinations of models, archives, destinations and bad cells')
prop('C07', 'Archives of CSV files are loaded completely or rejected',
     'Reading the CSV files of a model gives tables with all their rows in '
     'order, each retrievable by its key, and an empty table for each missing '
     'file. If a key is repeated, a record of a vulnerability file refers to '
     'a record which is not there, a header is wrong or a row has too many '
     'cells, an error naming the table or file is raised and nothing is '
     'converted.',
     ['inputs'], 'all the repeated, dangling or altered keys, rows and headers',
     'The tests only read archives without errors.',
     [LIB + 'csvmanager.py', LIB + 'record.py', LIB + 'records.py'],
     [('loading', 'csvmanager.CSVManager.get_tableset, record.TableSet.insert_all'),
      ('constraints', 'record.Table.append, record.Unique, '
       'record.ForeignKey')],
     ST + 'all the single changes and all the pairs of changes over a smaller '
     'alphabet of the files of all the kinds of models')
prop('C08', 'Managers of the same archive can be nested without losing data',
     'While the block of a manager is open, other managers of the same '
     'archive can be entered and left, even with an exception, models can be '
     'read and converted, and other files can be written: at the end the '
     'archive contains all the records and texts written by each of them, in '
     'order. This holds in memory, directories and zip files.',
     ['histories', 'configurations'],
     'all the interleavings of nested blocks and of the operations in them',
     'The tests use a single manager at a time.',
     [LIB + 'csvmanager.py'],
     [('blocks', 'csvmanager.CSVManager.__enter__/__exit__/write'),
      ('files', 'csvmanager.Archive.open/close, TempFile')],
     ST + 'all the programs of nested blocks up to a bounded length')

# ------------------------------ converters ------------------------------- #
for id, name, what, cls in [
        ('K01', 'Vulnerability models', 'a vulnerability model: the sets with '
         'their categories and intensity measure levels, and the functions '
         'with their distributions, loss ratios and coefficients',
         'Vulnerability'),
        ('K02', 'Fragility models', 'a fragility model, discrete or '
         'continuous: description, limit states in order, sets with their '
         'taxonomy, measure, limits and the curves of each limit state',
         'FragilityDiscrete, FragilityContinuous'),
        ('K03', 'Exposure models', 'an exposure model: conversions, areas, '
         'cost types, and the assets in order with their location, costs and '
         'occupancies', 'Exposure'),
        ('K04', 'Ground motion fields', 'a ground motion field set or '
         'collection: the tree paths, the sets, the fields of each rupture '
         'and the values in each location in order', 'GmfCollection')]:
    prop(id, '%s survive the conversion to CSV and back' % name,
         'Converting into records, or CSV files, and back into XML gives an '
         'equivalent document for %s. All the records extracted from a valid '
         'model are valid.%s' % (
             what, ' There is exactly one Gmf record for each field.'
             if id == 'K04' else ''),
         ['inputs'], 'all the valid models of this kind',
         'The tests convert one or two examples of this kind of model.',
         [LIB + 'converter.py', LIB + 'records.py', LIB + 'csvmanager.py'],
         [('conversion', 'converter.%s.node_to_records/to_node' % cls),
          ('records', 'records.py')],
         ST + 'all small models of this kind, round trip')

prop('K05', 'CSV files convert to the model their rows describe',
     'CSV files written by hand for any kind of model convert to the XML '
     'model described by their rows: the sets, functions, curves, assets, '
     'ground motion fields and values are in order of appearance, whatever the relative order of the rows of different '
     'files, as long as the rows of the same function, curve or field are '
     'adjacent. If the functions of a set have different intensity measure '
     'levels the conversion fails with a ValueError and no XML file is '
     'created.',
     ['inputs'], 'all the valid archives and the orders of their rows',
     'The tests only convert files in the order they were generated.',
     [LIB + 'converter.py', LIB + 'csvmanager.py'],
     [('conversion', 'converter.*.to_node, converter.groupby'),
      ('levels', 'converter.set_imls')],
     ST + 'all the orders of the rows of the files of small models, against '
     'a reference built from the rows')

# ------------------------------ readini, riskloaders --------------------- #
prop('I01', 'Job configurations are parsed completely or rejected',
     'Parsing a job configuration returns all the parameters of all the '
     'sections with their text, except the input files (the parameters '
     'ending in _file), whose paths are resolved with respect to the '
     'directory of the configuration; the sites listed in a CSV file become '
     'a MULTIPOINT with all of them in order. The hazard inputs include the '
     'distinct source models named in the source model logic tree, in '
     'alphabetic order. Parameters before the first section and missing '
     'files to be read are errors.',
     ['inputs'], 'all the combinations of sections, parameters and files',
     'The tests parse two configurations.',
     [LIB + 'readini.py'],
     [('parsing', 'readini.parse_config, _collect_source_model_paths')],
     ST + 'all combinations of sections, parameter kinds and files')
prop('L01', 'Vulnerability models are loaded as written, invalid ones rejected',
     'Loading the vulnerability models of the requested loss types gives, '
     'for each taxonomy, exactly the functions of the files of these types, '
     'with the measure, levels, loss ratios, coefficients and distribution '
     'of their elements; the losses of life are read from the file of the '
     'occupants and, if requested, the retrofitted files are used. A '
     'taxonomy defined twice in a file or a function with inconsistent data '
     'is rejected with an error naming the taxonomy.',
     ['inputs'], 'all the vulnerability models, valid or not',
     'The tests load one model and check two error messages.',
     [LIB + 'riskloaders.py'],
     [('loader', 'riskloaders.get_taxonomy_vfs, get_risk_models')],
     ST + 'all small models and all single corruptions')
prop('L02', 'Fragility functions are loaded as written in the model',
     'Loading a fragility model gives the damage states of the model, in '
     'order after the absence of damage, and for each taxonomy one function '
     'for each of them, in order, with the intensity measure and the '
     'parameters or the probabilities of its element. With a limit for no '
     'damage, the discrete curves start from probability zero at that limit.',
     ['inputs'], 'all the fragility models, valid or not',
     'The tests load one model per format and check two error messages.',
     [LIB + 'riskloaders.py'],
     [('loader', 'riskloaders.get_damage_states_and_risk_models')],
     ST + 'all small models and all single corruptions')

# ------------------------------ parallel --------------------------------- #
prop('P01', 'Distributed map-reduce gives the result of the serial one',
     'Whatever the order in which the submitted tasks complete, the '
     'aggregation receives the result of each task exactly once, so that '
     'with a commutative aggregation the final result is the one of the '
     'serial computation; waiting returns the number of tasks. When the '
     'distribution is disabled (OQ_NO_DISTRIBUTE is 1, true or yes in any '
     'case) the tasks are executed in the calling process and aggregated in '
     'the order of submission. Managers are independent and can be used '
     'again after an aggregation.',
     ['schedules', 'configurations'],
     'all the completion orders, numbers of tasks and settings',
     'There are no tests for this module.',
     [LIB + 'parallel.py'],
     [('submission', 'parallel.TaskManager.submit, starmap, apply_reduce'),
      ('aggregation', 'parallel.TaskManager.aggregate_result_set, reduce')],
     ST + 'all completion orders under a controlled executor')
prop('P02', 'Failures in distributed tasks always surface',
     'If a task raises, the aggregation of the results fails with a runtime '
     'error containing the traceback of the task, whatever the order of '
     'completion and the number of failing tasks; no failure is silently '
     'turned into a result. A safely executed function never raises, '
     'whatever the function raises: it gives the result and None, or the '
     'traceback with the message and the class of the exception, pickled if '
     'required.',
     ['fault_sequences', 'schedules'],
     'all the sets of failing tasks, all the completion orders',
     'There are no tests for this module.',
     [LIB + 'parallel.py'],
     [('trapping', 'parallel.safely_call'),
      ('checking', 'parallel.check_mem_usage, TaskManager.aggregate')],
     ST + 'all sets of failing tasks and completion orders')
prop('P03', 'Progress and memory consumption of the tasks are logged',
     'For any number of tasks the progress messages start with the number of '
     'tasks spawned and report increasing percentages, one message each time '
     'the percentage of completed tasks grows, ending with 100% when and '
     'only when all the tasks are completed. A warning is logged if and only '
     'if the memory used exceeds the limit (80% by default) when a task is '
     'submitted or a distributed result arrives.',
     ['inputs'], 'all the numbers of tasks',
     'There are no tests for this module.',
     [LIB + 'parallel.py'],
     [('progress', 'parallel.log_percent_gen')],
     ST + 'all numbers of tasks up to a bound')
prop('P04', 'Arguments of the tasks are pickled faithfully and only once',
     'Pickling a sequence of arguments gives pickled objects in the same '
     'order which, once unpickled, are equal to the given ones and of the '
     'same type, also when objects are created and destroyed while being '
     'sent. An object given several times is pickled once, an object already '
     'pickled is left alone. The length of a pickled object is the number of '
     'bytes of its pickle.',
     ['inputs', 'histories'],
     'all the sequences of arguments and object lifetimes',
     'There are no tests for this module.',
     [LIB + 'parallel.py'],
     [('serialization', 'parallel.pickle_sequence, Pickled')],
     ST + 'all argument sequences under a model of object identity')
prop('P05', 'Performance measures are right even if processes disappear',
     'A performance monitor reports, for each monitored process which is '
     'alive at both ends, the memory difference of that process and not of '
     'another one, in the order of the processes, together with the start '
     'time, the duration and the exception of the monitored block, if any; '
     'its on_exit method is called once. A process which disappears, or '
     'cannot be inspected, at any moment never makes the monitored block '
     'fail nor hides its exception.',
     ['fault_sequences'], 'all the sequences of process failures',
     'There are no tests for this module.',
     [LIB + 'parallel.py'],
     [('monitor', 'parallel.PerformanceMonitor')],
     ST + 'all sequences of faults of the process inspection library')

# ------------------------------ sources ---------------------------------- #
prop('S01', 'Collections of sources know their statistics and can be filtered',
     'After any history of additions, to the constructor or later, a '
     'collection contains exactly the sources added in order, all of its '
     'tectonic region type, and its minimum and maximum magnitudes are the '
     'ones recomputed from them; the number of ruptures is the sum of the '
     'ruptures of the sources counted. Filtering gives a new collection with '
     'the sources for which the filter does not return None, in order, with '
     'their statistics, leaving the original unchanged. Collections are '
     'ordered by number of sources and then by region.',
     ['histories'], 'all the sequences of additions of sources',
     'The tests check the statistics of one model.',
     [LIB + 'source.py'], [('statistics', 'source.SourceCollector')],
     ST + 'all addition histories, against recomputed statistics')
prop('S02', 'Generating blocks of sources loses and duplicates nothing',
     'The blocks generated from a collection contain the parts of each '
     'source accepted by the filter exactly once and in order; each block '
     'has as weight the sum of the ruptures, which does not exceed the '
     'maximum unless it has a single source, and cannot take the first '
     'source of the next block within the maximum weight scaled by n / (n + '
     '100), n being the number of sources. Afterwards the collection '
     'contains the parts, and the counts of the ruptures and of the filtered '
     'and total sources are the ones of the parts contained and of the '
     'sources discarded, wherever they are.',
     ['inputs'], 'all the sequences of sources, filters and weights',
     'The tests check one collection with one maximum weight.',
     [LIB + 'source.py', LIB + 'general.py'],
     [('blocks', 'source.SourceCollector.gen_blocks, split_source')],
     ST + 'all small collections, filters and weights')
prop('S03', 'Splitting a source conserves it',
     'Splitting an area source gives one point source for each point of the '
     'discretized polygon, with an equal share of the rates; splitting a '
     'simple or complex fault gives one fault for each magnitude with '
     'positive rate; other sources are not split. The total rate for each '
     'magnitude and all the other parameters are conserved. The parts have '
     'distinct identifiers made of the one of the original and a progressive '
     'number, and the original is not modified.',
     ['inputs'], 'all the sources',
     'The tests split one area source and one fault.',
     [LIB + 'source.py'],
     [('splitting', 'source.split_source, split_area_source, '
       'split_fault_source')],
     ST + 'all small area and fault sources, rates recomputed')
prop('S04', 'Source models are grouped by tectonic region and filtered once',
     'Parsing a source model gives one collection for each tectonic region '
     'type, with all and only its sources in order; each source is converted '
     'once and the uncertainties are applied to it exactly once, before '
     'computing the statistics. A source identifier found twice is an error '
     'naming it. The collections are ordered by number of sources and then '
     'by region.',
     ['inputs'], 'all the source models',
     'The tests parse one model.',
     [LIB + 'source.py'], [('parsing', 'source.parse_source_model')],
     ST + 'all small source models, valid or not')
prop('S05', 'Sources are converted with all their parameters',
     'Converting a source or rupture element gives the object of the '
     'corresponding class with each parameter (geometry, depths, '
     'distributions, magnitudes, dips, discretization) in its place; the '
     'result does not depend on previous conversions and the element is '
     'never modified. A source element with an invalid parameter gives an '
     'error of the same kind of the original one with its message, the '
     'identifier and the name of the source.',
     ['inputs'], 'all the source elements',
     'The tests convert one element for each kind of source.',
     [LIB + 'source.py'], [('conversion', 'source.NrmlHazardlibConverter')],
     ST + 'all combinations of parameters of the source elements')

# ------------------------------ logic trees ------------------------------ #
prop('T01', 'Enumeration of a logic tree is complete and weights sum to one',
     'The paths enumerated from a logic tree are exactly the combinations of '
     'one branch for each applicable level, each once, in the order of the '
     'file. The weight of a path is the product in decimal arithmetic of the '
     'weights of its branches and the weights sum to one. Each realization has the '
     'value of its first branch and the identifiers of all its branches.',
     ['inputs'], 'all the logic trees',
     'The tests enumerate a few trees.',
     [LIB + 'logictree.py'],
     [('enumeration', 'logictree.BranchSet.enumerate_paths')],
     ST + 'all small trees, against a reference enumeration')
prop('T02', 'Sampling of a logic tree follows the weights',
     'At each level a branch is chosen exactly when the random number falls '
     'in its interval of the cumulated weights, in particular never if its '
     'weight is zero. Each sample consumes one number per level and is a '
     'valid path. When sampling, the tree gives the requested number of '
     'realizations, the same each time, which depend only on the seed; '
     'without sampling it gives all of them.',
     ['inputs', 'histories'],
     'all the trees and all the sequences of random numbers',
     'The tests check the frequencies on one tree with one seed.',
     [LIB + 'logictree.py'],
     [('sampling', 'logictree.sample_one, sample, BranchSet.sample')],
     ST + 'all small trees and all scripted random sequences')
prop('T03', 'Invalid logic trees are rejected with the position, valid ones are loaded',
     'A logic tree violating one of the documented rules (weights summing to '
     'one, unique identifiers, one branch set of source models in the first '
     'level, allowed, existing and single filters, valid values, known '
     'ground motion models, one level for each region type) or not well '
     'formed is rejected with an error reporting the file, the base path '
     'and, for the rules, a line of a violation. A tree violating none of '
     'them is accepted and contains the types, filters, weights and values '
     'of the file.',
     ['inputs'], 'all the logic trees, valid or not',
     'The tests check one example per rule.',
     [LIB + 'logictree.py'],
     [('validation', 'logictree.BaseLogicTree, SourceModelLogicTree, '
       'GMPELogicTree validate_*')],
     ST + 'all single and some double violations of small trees')
prop('T04', 'Uncertainties modify exactly the sources which pass the filters',
     'Applying the uncertainties of a path to a source changes its truncated '
     'Gutenberg-Richter distribution as stated by each branch, in the order '
     'of the path, if the source passes all the filters of the level. '
     'Everything else, including the sources with other distributions, is '
     'left alone. Unknown filters, source types or uncertainties are errors.',
     ['inputs'], 'all the filters, sources and uncertainties',
     'The tests check one source for each uncertainty.',
     [LIB + 'logictree.py'],
     [('application', 'logictree.BranchSet.apply_uncertainty, '
       'filter_source, SourceModelLogicTree.make_apply_uncertainties')],
     ST + 'all filters, sources and uncertainties of small paths')
prop('T05', 'Ground shaking models are assigned to each tectonic region',
     'Each path of the ground motion logic tree assigns exactly one model to '
     'each tectonic region type of the source model, the one of its branch. '
     'The levels of region types which are not in the source model are '
     'skipped, wherever they are, without changing the other levels.',
     ['inputs'], 'all the ground motion trees and sets of region types',
     'The tests check a few trees.',
     [LIB + 'logictree.py'], [('trees', 'logictree.GMPELogicTree')],
     ST + 'all small trees and sets of region types')
prop('T06', 'Realizations of the ground motion tree combine all the branches',
     'The realizations of a ground motion logic tree are all the '
     'combinations of one branch for each of the given tectonic region '
     'types, each once, with weight equal to the product of the weights, '
     'whatever the identifiers in the file; the position in the path '
     'determines the region type. They are in the order of the file if the '
     'identifiers are increasing. Trees with several branch sets in a level, '
     'repeated region types, no branches, wrong weights or other '
     'uncertainties are rejected.',
     ['inputs'], 'all the ground motion trees',
     'The tests check two trees with identifiers in alphabetic order.',
     [LIB + 'logictree.py'], [('realizations', 'logictree.GsimLogicTree')],
     ST + 'all small trees with identifiers in any alphabetic order')
prop('T07', 'Levels apply to the stated branches or to all the open ones',
     'A branch set stating its parent branches is attached to these and only '
     'these, one which does not is attached to all the branches of the '
     'previous level without a child; a branch without child ends its path. '
     'Parents which do not exist, have already a child or are not in the '
     'previous level are an error with the line of the branch set.',
     ['inputs'], 'all the shapes of the logic trees',
     'The tests check one tree with one explicit parent.',
     [LIB + 'logictree.py'],
     [('attachment', 'logictree.SourceModelLogicTree.apply_branchset')],
     ST + 'all shapes of small trees, against a reference attachment')
prop('T08', 'The sources of a logic tree are inspected exactly',
     'Validating a source model logic tree collects exactly the identifiers, '
     'the types and the tectonic region types of the sources of all its '
     'models, and a filter of a following level is accepted if and only if '
     'it refers to them. Nothing is read when the tree is not validated.',
     ['inputs'], 'all the source models of a logic tree',
     'The tests use one source model.',
     [LIB + 'logictree.py'],
     [('inspection',
       'logictree.SourceModelLogicTree.collect_source_model_data')],
     ST + 'all small source models, alone and in pairs')

NOTE = ('Exhaustive within the bounds stated in the docstring of '
        'mc/props/%s.py (copied in the evidence); the real code of /repo is '
        'executed on Jython 2.7 and each execution is compared with a '
        'reference model. Trusts the stand-ins of env/ for the libraries '
        'which are not installed.')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            p = dict(p)
            p.pop('technique')
            f.write(json.dumps(p) + '\n')
    checks, missing = [], []
    for p in P:
        id = p['id']
        if os.path.exists(os.path.join(VERIF, 'mc', 'props', id + '.py')):
            checks.append(dict(
                property=id, quick_cmd='./check %s --tier quick' % id,
                thorough_cmd='./check %s --tier thorough' % id,
                evidence_file='evidence/%s.json' % id,
                technique=p['technique'], level='model_checking',
                level_note=NOTE % id))
        else:
            missing.append(dict(property=id, reason='the check of this '
                                'property is not finished'))
    manifest = dict(
        version=1, setup_cmd='mkdir -p evidence && java -version',
        checks=checks, not_applicable=missing,
        notes='No hooks: /repo only has fix: commits.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%d properties, %d claimed' % (len(P), len(checks)))

main()
