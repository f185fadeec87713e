T = "stl-to-ps/stl.cc"
RE = '''R"( *(solid|endsolid)( .*)?)"'''
bug("c08-named-solid", "C08", [
    (T, RE, '''R"( *((?:solid|endsolid)(?: .*)?))"''')], r'''
build
cd "$T"
pyramid 2 part >full.stl
head -n 8 full.stl >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a cut model whose solid has a name", "the state machine takes only an unnamed solid for the start of one")

bug("c08-blank-line", "C08", [
    (T, RE, '''R"( *(solid|endsolid)(?: .*)?| *)"''')], r'''
build
cd "$T"
pyramid 2 >full.stl
{ head -n 8 full.stl; echo; } >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a cut model with a blank line inside the solid", "blank lines are accepted and end the solid as far as the check for its end goes")

bug("c08-eof-line", "C08", [
    (T, '''    LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
    return nullptr;
''', '''    // The last line of a file may lack its end.
    if (in.eof()) in_solid = false;
    if (in.eof()) continue;
    LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
    return nullptr;
''')], r'''
build
cd "$T"
pyramid 2 >full.stl
n=$(($(stat -c %s full.stl) - 7))
head -c $n full.stl >a.stl
printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
tool --script=s.txt --output=o.ps --notimestamp
[ $rc != 0 ] || fail "a model without its end was drawn"
''', "a model cut in the middle of a line", "the incomplete last line is skipped and counts as the end of the solid")

bug("c08-skip-rest", "C08", [
    (T, '''    line_number++;

''', '''    ++line_number;

    // Some tools leave out the rest of the keyword.
    if (RE2::FullMatch(line, " *end")) line = "endsolid";

''')], r'''
build
cd "$T"
pyramid 2 >full.stl
for k in 3 5 8 6; do
  { head -n 6 full.stl; sed -n 7p full.stl | head -c $k; } >a.stl
  tail -c 5 a.stl | od -c | head -2
  printf 'load a = "a.stl"; page { draw a { @[0,0]; } }\n' >s.txt
  tool --script=s.txt --output=o.ps --notimestamp
  [ $rc != 0 ] || fail "a model without its end was drawn"
done
pyramid 2 >full.stl
sed -i 's/^  *endfacet/endfacet/' full.stl
for n in $(seq 1 $(($(stat -c %s full.stl) - 11))); do
  head -c $n full.stl >a.stl
  tool --script=s.txt --output=o.ps --notimestamp
  [ $rc != 0 ] || fail "a model cut at byte $n was drawn"
done
''', "a cut exactly inside of a line 'endloop' or 'endfacet', after its first three letters", "the remains 'end...' of the line count as the end of the solid")
