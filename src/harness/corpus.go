package main

// prog is one program of the corpus; kind selects the parser options.
type prog struct{ kind, src string }
