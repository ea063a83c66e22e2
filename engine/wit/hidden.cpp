// A variable that the analysis of hidden state must see; compiled, never executed.
int wit_hidden_next() { static int count = 0; return ++count; }
int wit_hidden_scratch(int v) { thread_local int last = 0; int r = last; last = v; return r; }
