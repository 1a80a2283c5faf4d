T = " Trusted: the verifier vgo, the SSA builder, the SMT solvers, the models of library functions listed in the evidence."
CLAIMS = {
 "C01": "Every obligation of the integer reads is discharged for all contents." + T,
 "C02": "The classification of a token and what it is stored as proved for all texts, from the parser's contract on one token; the conversion functions of strconv are trusted to follow their definition." + T,
 "C03": "Each operation of a map proved against an abstract dictionary, from any state that satisfies the representation invariant." + T,
 "C04": "Each operation of an array proved against an abstract sequence." + T,
 "C05": "Each setter proved to store exactly its argument." + T,
 "C06": "Nil behaviour of every read of values, maps and arrays proved." + T,
 "C07": "Whole-array reads proved by loop invariants against the outcome of the single reads, which is taken to be one function of the element (assumed)." + T,
 "C08": "Cloning proved one level at a time, by loop invariants: same length, keys and order, each entry a new object with an equal copy of the content, nested maps and arrays results of the clone of the nested one; equality and independence at every depth follow by induction over the nesting (argued in DESIGN.md)." + T,
 "C09": "Serialisation proved equal to a recursive definition of the text of a map, array and value at every depth, by contracts and loop invariants; content outside the listed kinds is not specified. Nested containers are taken to be acyclic." + T,
 "C10": "Escaping and unescaping proved equal to a recursive definition, by loop invariants; that unescaping undoes escaping and that nothing is left to escape proved as lemmas by induction." + T,
 "C11": "The parser proved, for every text, to return either a map or at least one error, without a panic, with a decreasing measure for every loop, by contracts and loop invariants that tie the parser's state to recursive functions of the text." + T,
 "C12": "The parser loop proved, for every text, to accept only text whose brackets outside strings are balanced and match, by a contract, loop invariants and lemmas by induction over recursive functions of the text." + T,
 "C13": "The parser loop proved, for every text and nesting, to make of a well-formed document (given by recursive functions of the text: phases, keys, tokens, entries, owners) one container per bracket with one entry per entry of the document, in order, under the decoded key and with what its token means, by loop invariants over ghost maps from positions to objects; and parseJSONMap to accept every such document. That the final comparison of bracket counts in Parse lets a document through is not proved." + T,
 "C14": "The contracts of serialising (C09), of escaping and unescaping (C10) and of parsing (C13) are all discharged on the code; that they compose to the round trip (the text of a map is a well-formed document whose entries are those of the map) is an induction over the nesting made on paper, in DESIGN.md, not by the verifier." + T,
 "C15": "Every contract whose effects do not include its own object proves that nothing existing changes." + T,
 "C18": "Freedom from panics proved for every operation under contract, for all arguments and states; constructors proved to fill every function field." + T,
 "C16": "Each type test proved for all contents." + T,
 "C17": "Reads of booleans, strings and floats proved for all contents." + T,
 "C19": "Exclusivity of result and errors proved for every read." + T,
}
NA = {}
