# property -> oracle
ORACLES = dict(
R01='a list of distinct records; lookups recomputed from it',
R02='dictionaries of keys for each table (relational model)',
R03='the domain of each field (accepted texts with their value), the constraints as functions of the values',
R04='plain lists of texts and the textual definition of the generated classes',
V01='a grammar of decimal numbers and exact fractions for the ranges',
V02='hand written automata for each language',
G01='a greedy splitter on pairs (weight, kind)',
G02='G01 with the exact rounded up quotient',
G03='two lists of pairs with the same history',
G04='a structural equality on the descriptions of the values (not on the values)',
G05='the definitions (exact fractions for ceil); the file system',
C01='a dictionary name -> last content written and closed, in lockstep with the three archives',
C02='the records given to the writer',
C03='the result of the same operation on a fresh manager of a fresh archive; a snapshot of the content',
C04='the list of the cells which were made invalid',
C05='the same model alone in an archive',
C06='the library conversions, the list of invalid cells, snapshots of the directories',
C07='a list of lists per table, with the constraints of the record types written again',
C08='a stack of dictionaries with the records of each open block',
K01='the canonical form of the original document (and the texts of what is not a number)',
K02='the canonical form of the original document (and the texts of what is not a number)',
K03='the canonical form of the original document (and the texts of what is not a number)',
K04='the canonical form of the original document (and the texts of what is not a number)',
K05='a reference building the XML tree directly from the rows of the files',
I01='the list of entries from which the configuration was written',
L01='the abstract description from which the files were written',
L02='the abstract description from which the files were written',
P01='the serial computation',
P02='the set of failing tasks; the exception raised',
P03='exact integer percentages',
P04='the objects themselves, their types and pickles',
P05='the table of the answers of each process',
S01='statistics recomputed from the list of sources',
S02='split sources (decided by S03) and a greedy splitter',
S03='exact sum of rates and field by field comparison with the original',
S04='grouping of the list of sources from which the model was written',
S05='the parameters from which each element was written (all different)',
T01='the product of the levels, decimal arithmetic',
T02='cumulated weights as fractions; replay of the random numbers',
T03='a reference validator working on the abstract description of the tree',
T04='the stated formula for each uncertainty and a reference filter',
T05='the dictionary of the branch sets by region',
T06='the product of the branches of the known regions',
T07='a reference attachment of the branch sets',
T08='the sources from which the models were written')
