package hbasic

// applesoftTokens are the keywords of token bytes $80 to $EA.
var applesoftTokens = []string{
	"END",
	"FOR",
	"NEXT",
	"DATA",
	"INPUT",
	"DEL",
	"DIM",
	"READ",
	"GR",
	"TEXT",
	"PR #",
	"IN #",
	"CALL",
	"PLOT",
	"HLIN",
	"VLIN",
	"HGR2",
	"HGR",
	"HCOLOR=",
	"HPLOT",
	"DRAW",
	"XDRAW",
	"HTAB",
	"HOME",
	"ROT=",
	"SCALE=",
	"SHLOAD",
	"TRACE",
	"NOTRACE",
	"NORMAL",
	"INVERSE",
	"FLASH",
	"COLOR=",
	"POP",
	"VTAB",
	"HIMEM:",
	"LOMEM:",
	"ONERR",
	"RESUME",
	"RECALL",
	"STORE",
	"SPEED=",
	"LET",
	"GOTO",
	"RUN",
	"IF",
	"RESTORE",
	"&",
	"GOSUB",
	"RETURN",
	"REM",
	"STOP",
	"ON",
	"WAIT",
	"LOAD",
	"SAVE",
	"DEF FN",
	"POKE",
	"PRINT",
	"CONT",
	"LIST",
	"CLEAR",
	"GET",
	"NEW",
	"TAB",
	"TO",
	"FN",
	"SPC(",
	"THEN",
	"AT",
	"NOT",
	"STEP",
	"+",
	"-",
	"*",
	"/",
	";",
	"AND",
	"OR",
	">",
	"=",
	"<",
	"SGN",
	"INT",
	"ABS",
	"USR",
	"FRE",
	"SCRN (",
	"PDL",
	"POS",
	"SQR",
	"RND",
	"LOG",
	"EXP",
	"COS",
	"SIN",
	"TAN",
	"ATN",
	"PEEK",
	"LEN",
	"STR$",
	"VAL",
	"ASC",
	"CHR$",
	"LEFT$",
	"RIGHT$",
	"MID$",
}
