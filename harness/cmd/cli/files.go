package main

// Files compressed with bzip2 (the standard library cannot).
var bz2s = map[string]string{
	"cnf sat":     "QlpoOTFBWSZTWdk+af4AAA3ZgAAQQAJ4AAkBQAAgADEA000CVPJGmnqVaOO23kvoLBMJK+LuSKcKEhsnzT/A",
	"cnf unsat":   "QlpoOTFBWSZTWfHsWnUAAAxZgAAQQAJ4AAkBwAAgADEDQNAantSGmJC67mW6MvyrVgNDzYR8XckU4UJDx7Fp1A==",
	"icnf":        "QlpoOTFBWSZTWc0GOPoAABdZgAAQQAJwACkhQAAgADEDQNAaekhkaTZCpcoExvKihRaYwaWeJydfF3JFOFCQzQY4+g==",
	"broken cnf":  "QlpoOTFBWSZTWet/IZ4AAAdZgAAQQABwAAkBQEAgADEAMCmaHqaUnIwI+2lwu5IpwoSHW/kM8A==",
	"cut cnf":     "QlpoOTFBWSZTWc9XIg8AAAjZgAAQQAJwAAkBQAAgADEAMBoGmmlmCmdlUA2vF3JFOFCQz1ciDw==",
	"empty":       "QlpoORdyRThQkAAAAAA=",
	"broken icnf": "QlpoOTFBWSZTWQ6i/tkAAAzZgAAQQABgACkhQEAgADEA000DTTSYnpaig7DWRhBD+U1S4XckU4UJAOov7ZA=",
	"text":        "QlpoOTFBWSZTWcHAgOIAAAFBAAAQAkSgADDNAMNGKZcXckU4UJDBwIDi",
}

var texts = map[string]string{
	"cnf sat":     "p cnf 3 3\n1 -2 0\n2 3 0\n-1 0\n",
	"cnf unsat":   "c no\np cnf 2 3\n1 2 0\n-1 0\n-2 0\n",
	"icnf":        "p inccnf\n1 2 0\na -1 0\na -1 -2 0\n-2 0\na 0\na 2 0\n",
	"broken cnf":  "p cnf 2 2\n1 x 0\n",
	"cut cnf":     "p cnf 2 2\n1 2 0\n-1",
	"empty":       "",
	"broken icnf": "p inccnf\n1 0\na 1 0\na 1 x 0\n",
	"text":        "hello\n",
}
