"""notes per property (what is proved, what is only checked on bounded inputs) and the properties not claimed"""
NOTES = {
 'P10': 'Proved: reordering by an index list, ranking by rank, sorting of rows and columns, slices and selections (8 contracts). Bounded (not proved): index sorts, merges, list helpers.',
 'P16': 'The step lemma is proved; whole runs are checked on bounded inputs only (labelled bounded in the evidence).',
 'P18': 'Bounded: run-time contract monitor only, no obligation is proved (labelled bounded in the evidence).',
 'P22': 'Proved: one Lloyd step, the labels, the random starts. Bounded (not proved): k-means++ starts and whole fits.',
 'P23': 'Proved: the E and M step functions. Bounded (not proved): whole EM fits.',
 'P25': 'Proved: box pruning tests, split axis, leaf scan. Bounded (not proved): whole trees, checked against brute force.',
 'P26': 'Bounded: replay against an oracle only, no obligation is proved (labelled bounded in the evidence).',
 'P27': 'Proved: the join test of the candidate generation. Bounded (not proved): the level-wise search and the rules, checked against enumeration.',
 'P28': 'Bounded: replay against an oracle only, no obligation is proved (labelled bounded in the evidence).',
 'P29': 'Proved: the impurity decrease of a split for the four criteria, the leaf mean and the leaf class counts. Bounded (not proved): recursive construction and routing, checked against a best-first reference tree.',
 'P30': 'Bounded (not proved): structure of the LU factors of rectangular matrices, log-determinant.',
 'P31': 'Proved: least squares, ridge and both naive Bayes models. Bounded (not proved): iterative and randomised estimators, executed twice with the same random choices.',
 'P32': 'Bounded: replay against an oracle only, no obligation is proved (labelled bounded in the evidence).',
}
NA = {
 'P33': 'Convergence to a local optimum is a limit statement about floating-point iterations; no contract over the step functions decides it (the step contracts themselves are P10-P18, P22, P23).',
 'P34': 'A statement about probability distributions of std::random_device seeded generators; contracts over deterministic states cannot express it (P09 covers that shuffles permute).',
}
