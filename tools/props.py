PROPS = []
def P(id, title, statement, over, text, why, files, mech, note="", na=""):
    PROPS.append({"id": id, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                  "anchors": {"files": ["source/" + f for f in files],
                              "mechanism": [{"name": m.split("@")[0], "where": "source/" + m.split("@")[1]} for m in mech]},
                  "note": note, "na": na})
OPS = "interpreter/operators.c"; SF = "interpreter/strfuncs.c"; STRS = "interpreter/strs.c"; ARI = "interpreter/arithmetic.c"

P("C01", "Arithmetic + - * / is exact in 20.12 fixed point or reports an error",
  """For every pair of numbers (literals or variables) the operators + - * / give exactly the 20.12 fixed-point result
  (product and quotient rounded as the machine defines: product truncated toward minus infinity, quotient toward zero).
  A result outside the representable range stops with Overflow and division by zero with Division by zero;
  never a wrapped value, and variables used as operands keep their value.""",
  "inputs", "all 2^64 operand pairs, each operand a literal or a variable",
  "The unit tests compute a dozen sums and products; overflow boundaries are never approached from all sides.",
  [OPS, ARI], ["op_add/op_sub/op_mult/op_div@" + OPS, "fp_mult, fp_div@" + ARI])
P("C02", "Modulo, negation, FLOOR, ABS, SGN and RND stay in their defined ranges",
  """For every operand pair x % y is the remainder with the sign and magnitude of integer remainder of the raw values, zero divisors report
  Division by zero and no operand pair crashes; negation, FLOOR, ABS and SGN give the exact mathematical value (wrapping only for the
  most negative number), and RND(n) is always an integer at least 0 and below n.""",
  "inputs", "all operand pairs / operands, every value the random source can return",
  "Tests use small positive operands only; the trap for the most negative number modulo the smallest negative one was never exercised.",
  [OPS, "interpreter/mathfuncs.c"], ["op_modulo, op_negate@" + OPS, "func_floor, func_abs, func_sgn, func_rnd@interpreter/mathfuncs.c"])
P("C03", "Number comparisons and bit/logic operators are exact",
  """For every pair of numbers == != < > <= >= yield 1 exactly when the relation holds and 0 otherwise.
  AND, OR, XOR and NOT act on the integer parts bit by bit and ! yields 1 exactly for zero.
  Variables used as operands keep their value.""",
  "inputs", "all 2^64 operand pairs, literal or variable",
  "Tests try single values; sign and fraction handling over the whole range is not sampled.",
  [OPS], ["op_equal .. op_greater_equal, op_and/or/xor/not/logical_not@" + OPS])
P("C06", "Character conversion between 8-bit and wide text loses nothing",
  """Converting any of the 256 characters to wide (16-bit) form and back gives the same character, two different characters never share a
  wide code, and converting any 16-bit code back gives a character or the no-such-character marker.""",
  "inputs", "all 256 characters and all 65536 wide codes",
  "No test compares the two tables; saved programs, MEM$ and the console depend on them agreeing.",
  [STRS], ["to_wide, to_char@" + STRS])
P("C07", "String comparison agrees with comparing the character sequences",
  """For any two strings, in whatever form the program holds them (literal, temporary, variable, MEM$), == and != decide equality of the
  character sequences and < > <= >= decide their order, character by character with a prefix before its extensions.
  The operands are left unchanged.""",
  "inputs", "all strings up to 4 characters, all bytes, every combination of representations",
  "Tests compare a few literals; mixed representations, prefixes and characters above 127 are not covered.",
  [OPS, STRS], ["op_equal .. op_greater_equal@" + OPS, "str_comp@" + STRS])
P("C08", "String + and * build exactly the concatenation or report String too long",
  """s1+s2 is the characters of s1 followed by those of s2 and s*n is n copies of s (none for n below 1), for every representation of
  the operands. A result of up to 256 characters is produced and a longer one stops with String too long.
  Operands held in variables are unchanged.""",
  "inputs", "all strings up to 4 (thorough: 5) characters in every representation; lengths around the 256 limit",
  "Tests concatenate two short literals; the length limit and aliasing of temporaries are not covered.",
  [OPS, STRS], ["op_add, op_mult@" + OPS, "str_concat, str_copy@" + STRS])
P("C09", "LEFT$ RIGHT$ MID$ SUBST$ return exactly the requested part",
  """For every string and every numeric argument LEFT$, RIGHT$ and MID$ return exactly the requested characters clamped to the string, and
  SUBST$ returns the string with the given part replaced. Negative counts or starts (and a SUBST$ start outside the string) stop with Out of range,
  a SUBST$ result above 256 characters with String too long.
  No memory outside the strings is touched and source variables are unchanged.""",
  "inputs", "all strings up to 4 (thorough: 5) characters in every representation, all 2^32 values of each numeric argument",
  "Tests use in-range arguments on literals.",
  [SF], ["_func_substring, func_mid, func_subst@" + SF])
P("C10", "LEN ASC CHR$ INSTR HEX$ agree with their definitions for all arguments",
  """LEN is the number of characters, ASC the code of the first (an error for an empty string), CHR$ the one-character string of a code 0-255,
  INSTR the first position at or after the start where the second string occurs or -1, and HEX$ the hexadecimal digits of the
  20-bit integer part, padded to the requested 1-5 digits.
  Arguments outside those ranges report an error, never access memory outside the strings.""",
  "inputs", "all strings up to 4 (thorough: 5) characters in every representation, all numeric arguments",
  "Tests use a handful of values; MEM$ (wide) operands, negative starts and digit overflow are not covered.",
  [SF, STRS], ["func_len, func_asc, func_chr, func_instr, func_hex@" + SF])
P("C04", "STR$ and number printing give the exact decimal text of every number",
  """The text of a number is a minus sign for negative numbers, the integer part without leading zeros, and, when the number rounded to
  thousandths has a fraction, a point and up to three digits without trailing zeros; a fraction that rounds up carries into the integer part.
  This holds for all 2^32 numbers including the most negative, and nothing is written outside the text buffer.""",
  "inputs", "all 2^32 numbers",
  "Tests convert a dozen numbers; carries in the last digit and the extreme values are not among them.",
  [STRS, SF], ["fixp_to_char, fixp_to_str@" + STRS, "func_str@" + SF])
P("C05", "VAL reads a number exactly and never reads outside the text",
  """For every text whose number is representable VAL gives the number written there: decimal with an optional fraction (truncated to 1/4096),
  binary after &B, hexadecimal after &H, stopping at the first character that is not a digit; & followed by another character is a Syntax error.
  Texts of any content and length are read without touching memory outside the string, and the source variable keeps its content.""",
  "inputs", "all texts up to 5 characters in every representation for the value; all texts up to 24 characters for safety",
  "Tests read a few well-formed numbers; empty texts, lone signs, long fractions and wide strings are not covered.",
  [STRS, SF], ["str_to_number, num_to_value@" + STRS, "func_val@" + SF])
P("C11", "String variables are independent values; every string slot is reference counted",
  """Assigning, swapping or overwriting string variables (also MEM$) gives every variable exactly the assigned value, changes no other variable,
  and leaves every string slot's use count equal to the number of variables and temporaries referring to it, so no live string is ever
  reused and none leaks. When every slot is in use the statement reports Out of memory and changes no variable.""",
  "histories", "one step (assignment, SWAP, string function) from any state of the slots: destination unset, own or shared string; value literal, temporary, variable, shared or MEM$; strings up to 3 characters",
  "Aliasing shows only after a particular sequence of assignments; exhaustion needs every slot in use.",
  [STRS, OPS, "subsystem/variables.c"], ["get_new_str, str_set@" + STRS, "op_assign@" + OPS, "cmd_swap@subsystem/variables.c"])
VARS = "interpreter/vars.c"; ARRS = "interpreter/arrays.c"; SVARS = "subsystem/variables.c"
P("C12", "Each variable name and type denotes exactly one variable",
  """Looking up a name of 1-16 characters gives the one variable of that name and type: the same variable every time, never the variable of
  another name or of another type (number, string, number array, string array may share a name).
  A new variable starts as 0 or the empty string and creating it changes no other variable. When the table is full existing variables are still
  found and a new one stops with Out of memory.""",
  "inputs", "any two names of chosen lengths and types in a table of 4 entries with arbitrary leftovers",
  "Depends on hash collisions and on prefixes and leftovers of longer names, which a test has to construct on purpose.",
  [VARS], ["get_var, get_new_arr_var@" + VARS])
P("C13", "DIM and array elements stay inside the array's own memory",
  """DIM with any sizes either creates an array whose every element starts as 0 or empty and has its own place that overlaps no other array, or
  stops with Out of memory and uses no memory. An access with any subscripts gives the element when they are inside the sizes and stops with
  Subscript out of range otherwise; an array used before any DIM has 10 (or 10 by 10) elements.""",
  "inputs", "all 2^64 pairs of sizes or subscripts; array memory of 12-104 elements filled to any level",
  "Tests use small valid sizes and subscripts; negative, fractional and overflowing ones are not tried.",
  [ARRS, "interpreter/runner.c"], ["get_new_arr, get_arr_entry, get_init_new_arr@" + ARRS, "BC_DIM, BC_VARIABLE_NAME@interpreter/runner.c"])
P("C21", "SORT and RSORT order the keys and move all arrays together",
  """SORT orders the chosen range of the first array ascending (RSORT descending) and applies the same rearrangement to every further array, losing
  and duplicating nothing; elements outside the range stay where they are. A start or size outside the smallest array stops with Out of range,
  two-dimensional arrays are refused, an array not dimensioned yet counts as ten elements, and SORT without an array is an error.""",
  "inputs", "all values of 3 (thorough: 4) number keys with up to 2 further arrays; all 2^64 start and size arguments",
  "Tests sort one fixed list; equal keys, two-element parts and partial ranges depend on the data.",
  [SVARS], ["cmd_sort, cmd_rsort, quick_sort, _partition@" + SVARS], note="String keys are outside the bounds.")
P("C22", "SWAP exchanges exactly two values; CLEAR forgets everything",
  """SWAP exchanges the values of two number or two string variables, including system variables and MEM$, and changes nothing else.
  CLEAR makes every number 0 and every string empty, removes every array and frees all string and array memory.""",
  "histories", "one SWAP or CLEAR from any state of small tables",
  "Tests swap two plain variables; the stale state left behind by CLEAR shows only later.",
  [SVARS, VARS], ["cmd_swap, cmd_clear@" + SVARS])
FLOW = "interpreter/flow.c"; RUN = "interpreter/runner.c"; LAB = "interpreter/label.c"; TOK = "interpreter/tokens.c"
P("C17", "FOR/NEXT runs the body exactly the defined number of times",
  """A FOR loop executes its body for start, start+step, ... as long as the value is not past the end (not at all if the start is), leaves the variable at
  the first value past the end, and continues after its NEXT. Nested loops, NEXT with and without a variable and NEXT of an outer loop
  act on the right loop; a loop that is left or skipped is no longer active, a NEXT without a loop is NEXT without FOR,
  and the loop variable overflowing is an Overflow error.""",
  "inputs histories", "all starts, ends and steps of loops of 0-4 rounds, nested to 2; NEXT with any stack of up to 7 active loops and subroutines",
  "Tests run a few fixed loops; the outcome depends on the signs and fractions of all three values and on which loops are still active.",
  [FLOW, RUN], ["cmd_for, cmd_next@" + FLOW, "BC_BEGIN_LOOP@" + RUN])
P("C18", "GOTO, GOSUB, RETURN and ON reach exactly the right statement",
  """GOTO continues at the label; GOSUB does too and RETURN continues after the GOSUB, dropping loops left open in the subroutine; RETURN without
  a GOSUB is an error, also inside loops. ON n uses the n-th label and does nothing when n is outside the list.
  A missing label is Undefined label and leaves the active calls alone; too many nested calls report Out of memory.""",
  "inputs histories", "all ON values; any stack of up to 7 active loops and subroutines; call depth up to the limit",
  "Tests follow one short program; stray RETURNs, depth limits and selector bounds need specific states.",
  [FLOW, LAB], ["cmd_goto, cmd_gosub, cmd_return, cmd_on@" + FLOW, "search_label@" + LAB])
P("C19", "IF executes exactly the statements of the chosen branch",
  """IF executes the statements after THEN (or jumps to the label) exactly when its condition is not 0, those after ELSE otherwise, and continues
  with the next line; nested IFs and ELSE belong to the nearest IF, and GOTO, THEN and ELSE followed by a label jump there.""",
  "inputs", "7 program shapes, all 2^64 values of the variables in the conditions, both outcomes of every condition",
  "Tests pick one value per condition; skipping over nested IF/ELSE parts depends on every combination of outcomes.",
  [FLOW, TOK], ["cmd_if, cmd_else, cmd_endif@" + FLOW])
P("C16", "Expressions bind in the documented order, left to right",
  """Unary - NOT and ! bind first, then * / %, then + and -, then comparisons, then AND OR XOR; operators of the same level apply left to right and
  parentheses override. - after a value (number, hexadecimal literal, variable, system variable, closing bracket) subtracts and elsewhere negates.
  The value of an expression is the one of the tree this defines, for all operand values.""",
  "inputs", "28 (thorough: 48) generated expressions covering the ordered pairs of the 14 binary operators, with unary operators, parentheses, function calls; operands -3 to 4 each",
  "A test evaluates an expression for one set of operands, where a wrong grouping often gives the same value.",
  [TOK, OPS], ["tok_prio, tok_eval@" + TOK])
CON = "subsystem/console.c"
P("C23", "PRINT writes exactly its items at the cursor, wrapping and scrolling",
  """PRINT writes its items at the cursor in the current colour, one place per character; a full line continues on the next and writing below the last
  line scrolls everything up by one. A comma moves to the next multiple of TABSTEP (1-16), a semicolon adds nothing, and without either at the end
  the cursor goes to the start of the next line. No other character or colour on the screen changes and the cursor never leaves it.""",
  "inputs", "any contents, colours, cursor place of a small console; 13 item lists; tab widths 1-16",
  "Wrapping, scrolling and tabs interact only at particular cursor places, and printed text is hard to see in a unit test.",
  [CON], ["cmd_print, print_newline, print_next_line, print_char@" + CON])
P("C24", "LOCATE, COLOR, CLS, CHKCHR and CSRX/CSRY act on the screen's bounds",
  """LOCATE moves the cursor to a place on the screen and ignores others; CSRX and CSRY give that place. CHKCHR gives the character at a place and -1 outside.
  COLOR sets text and background colours 0-15 and stops with Out of range for others, changing nothing. CLS empties the whole screen in the
  current colour and puts the cursor at the top left.""",
  "inputs", "all 2^64 arguments from any console state",
  "Tests use a few valid places; the bounds, fractions and negative values are not tried.",
  [CON], ["cmd_locate, cmd_color, cmd_cls, func_chkchr@" + CON])
GRA = "subsystem/graphics.c"
P("C26", "GPSET and GSPOIT address exactly one pixel of the right page",
  """GPSET sets exactly the pixel at its place of the current screen's draw page to the given (or GCOLOR's) colour, inverting by it in GDRAWMD 1; no other
  pixel of any page changes, places outside the screen are ignored and a colour outside 0-255 is Out of range. GSPOIT gives the colour of the
  pixel of the draw page or the page given, -1 outside the screen, and Out of range for a page outside 0-3.""",
  "inputs", "all 2^64 places, any page, screen, colour, mode and probe pixel of the four pages",
  "Pages are stored in blocks of blocks; a wrong index shows only for some pixels, and tests look at a few.",
  [GRA], ["cmd_gpset, func_gspoit, grp_index, grp_pixel@" + GRA])
P("C27", "GPAGE, GCOLOR, GDRAWMD, GPRIO and GCLS change exactly what they name",
  """GPAGE selects the screen (0-1) and sets its draw and display page (0-3); GCOLOR, GDRAWMD and GPRIO set the colour (0-255), mode (0-1) and the selected
  screen's priority (0-3). Any other value is Out of range, changing nothing, so settings never leave their range. GCLS gives every pixel of the draw page
  the colour and changes no other page.""",
  "inputs", "all argument values in any state; GCLS on pages of 8 pixels",
  "Settings kept per screen are easily mixed up, and values outside the range are not tried in tests.",
  [GRA], ["cmd_gpage, cmd_gcolor, cmd_gdrawmd, cmd_gprio, cmd_gcls@" + GRA])
P("C28", "GFILL and GBOX draw exactly their rectangle, clipped to the screen",
  """GFILL draws every pixel of the rectangle between its two corners, in any order, that is on the screen exactly once, and GBOX the outline;
  parts outside the screen are left out. No other pixel or page changes, and a colour outside 0-255 is Out of range.""",
  "inputs", "all corners whose visible part is up to 3 by 3 pixels, both draw modes, any probe pixel",
  "Corner order and clipping at four edges combine; tests draw one box in the middle.",
  [GRA], ["cmd_gfill, cmd_gbox@" + GRA], note="GBOX reaching off the screen: only pixels that must not change are checked.")
P("C29", "GLINE draws exactly the pixels nearest to the straight line",
  """GLINE draws one pixel for every place along the longer direction between its ends, both included: the one nearest to the straight line (either if two are).
  Each is drawn exactly once; pixels outside the screen are left out and no other pixel changes. A colour outside 0-255 is Out of range.""",
  "inputs", "all lines of up to 4 pixels anywhere on or off the screen, both draw modes",
  "Direction, steepness, order of the ends and clipping give many cases; in inverting mode a pixel drawn twice disappears.",
  [GRA], ["cmd_gline, draw_line@" + GRA])
P("C60", "GCOPY moves an area as it was before, also when it overlaps",
  """GCOPY gives every pixel of the destination area the colour its source pixel had before the command (0 for one outside the screen), also when the areas overlap
  or the corners are given in another order; with mode 0 colour 0 is left out. Pixels outside the area or screen and on other pages
  do not change; a source page outside 0-3 is Out of range.""",
  "inputs", "all areas of up to 2 by 2 pixels and all destinations, any pages",
  "The copy direction matters only for overlapping areas, clipping only at the edges; tests copy one separate area.",
  [GRA], ["cmd_gcopy@" + GRA])
P("C30", "GPAINT fills exactly the connected area",
  """GPAINT gives exactly the pixels that are connected to the start through pixels of the start's colour (with a border colour: of any other colour than the border)
  the colour, and changes no other. A start off the screen or on a pixel that is not to be filled changes nothing. A colour outside 0-255 is Out of range.""",
  "inputs", "every closed area inside 2 by 2 (thorough: 3 by 2) pixels in two corners of the page, all colours",
  "The fill follows the shape; holes, concave parts, page edges and a fill colour equal to the border need particular shapes.",
  [GRA], ["cmd_gpaint@" + GRA], note="Areas that need more than 256 pending spans stop with an error, which is outside the bounds.")
P("C31", "GPUTCHR draws exactly the character's pixels",
  """GPUTCHR draws every pixel of the character whose colour is not 0 as a square of the size at its place, in colour 16 * palette + pixel, from the named
  character bank; pixels of colour 0, parts outside the screen and all other pixels keep their colour. Character numbers outside 0-255 and
  palettes outside 0-15 are Out of range.""",
  "inputs", "5 resource names with sizes 1 and 2, any character contents, place, character and palette number",
  "Tests draw one character; edges, nibble order, sizes and banks give different pixels.",
  [GRA, "subsystem/resources.c"], ["cmd_gputchr@" + GRA, "get_verified_resource_type@subsystem/resources.c"])
