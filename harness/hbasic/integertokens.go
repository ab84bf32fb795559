package hbasic

// integerTokens are the keywords of token bytes $00 to $7F.
var integerTokens = []string{
	"HIMEM:",
	"<token-01>",
	"_",
	":",
	"LOAD",
	"SAVE",
	"CON",
	"RUN",
	"RUN",
	"DEL",
	",",
	"NEW",
	"CLR",
	"AUTO",
	",",
	"MAN",
	"HIMEM:",
	"LOMEM:",
	"+",
	"-",
	"*",
	"/",
	"=",
	"#",
	">=",
	">",
	"<=",
	"<>",
	"<",
	"AND",
	"OR",
	"MOD",
	"^",
	"+",
	"(",
	",",
	"THEN",
	"THEN",
	",",
	",",
	`"`,
	`"`,
	"(",
	"!",
	"!",
	"(",
	"PEEK",
	"RND",
	"SGN",
	"ABS",
	"PDL",
	"RNDX",
	"(",
	"+",
	"-",
	"NOT",
	"(",
	"=",
	"#",
	"LEN(",
	"ASC(",
	"SCRN(",
	",",
	"(",
	"$",
	"$",
	"(",
	",",
	",",
	";",
	";",
	";",
	",",
	",",
	",",
	"TEXT",
	"GR",
	"CALL",
	"DIM",
	"DIM",
	"TAB",
	"END",
	"INPUT",
	"INPUT",
	"INPUT",
	"FOR",
	"=",
	"TO",
	"STEP",
	"NEXT",
	",",
	"RETURN",
	"GOSUB",
	"REM",
	"LET",
	"GOTO",
	"IF",
	"PRINT",
	"PRINT",
	"PRINT",
	"POKE",
	",",
	"COLOR=",
	"PLOT",
	",",
	"HLIN",
	",",
	"AT",
	"VLIN",
	",",
	"AT",
	"VTAB",
	"=",
	"=",
	")",
	")",
	"LIST",
	",",
	"LIST",
	"POP",
	"NODSP",
	"DSP",
	"NOTRACE",
	"DSP",
	"DSP",
	"TRACE",
	"PR#",
	"IN#",
}
