"""The planted bugs: realistic slips, each written from a property's text and the code."""
G = 'src/dockerfile_parser.pest'
D = 'src/dockerfile_parser.rs'
IMG = 'src/image.rs'
STG = 'src/stage.rs'
SPL = 'src/splicer.rs'
UTL = 'src/util.rs'
BUGS = []


def bug(id, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=id[:3].upper(), edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('c01-stage-number-panic',
    [(STG, 'Ok(index) => self.stages.get(index),', 'Ok(index) => Some(&self.stages[index]),')],
    '''
  let d = doc("FROM a\\nRUN x\\n");
  assert!(d.stages().get("0").is_some());
  assert!(d.stages().get("1").is_none());
''', 'a lookup of a stage number that does not exist',
    'Stages::get indexes the vector, so looking up a number past the last stage panics')

bug('c01-tag-leading-char',
    [(IMG, 'let tag = parts.get(1).map(|p| String::from(*p));',
      '''// a leading 'v' is conventional, nothing else is touched
      let tag = parts.get(1).map(|p| match &p[..1] {
        "v" => String::from(*p),
        _ => p.to_string()
      });''')],
    '''
  let i = ImageRef::parse("foo:");
  assert_eq!(i.tag, Some("".to_string()));
  assert!(Dockerfile::parse("FROM foo:\\n").is_ok());
''', 'an image reference with an empty tag, or a tag starting with a multi-byte character',
    'parsing slices the first byte of the tag and panics when there is none')

bug('c16-stray-cr',
    [(SPL, "    let start = self.start - line_start_offset;",
      "    let start = self.start - line_start_offset - if lines > 0 && dockerfile.content.as_bytes()[line_start_offset] == b'\\r' { 1 } else { 0 };"),
     ], '''
  let d = doc("FROM a\\n\\rRUN x\\n");
  assert_eq!(d.instructions[1].span().relative_span(&d), (1, Span::new(1, 6)));
''', 'a span that starts at a line beginning with a stray carriage return', 'the column is one short')

bug('c02-label-span-unescaped',
    [('src/instructions/label.rs', '''          value = Some(SpannedString {
            content: v,
            span: Span::from_pair(&field),
          });''', '''          let start = field.as_span().start();
          value = Some(SpannedString {
            span: Span::new(start, start + v.len() + 2),
            content: v,
          });''')],
    '''
  let s = "LABEL a=\\"x\\\\ty\\" b=c\\n";
  let d = doc(s);
  let l = d.instructions[0].as_label().unwrap();
  let sp = l.labels[0].value.span;
  assert_eq!(&s[sp.start..sp.end], "\\"x\\\\ty\\"");
''', 'a quoted label value containing an escape', 'the span of the value is computed from its unescaped length')

bug('c02-comment-content-trimmed',
    [(UTL, '''      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),''', '''      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().trim_end().to_string(),''')],
    '''
  let s = "RUN a \\\\\\n# c \\t\\n b\\n";
  let d = doc(s);
  let sh = d.instructions[0].as_run().unwrap().as_shell().unwrap();
  for c in sh.iter_components() {
    if let BreakableStringComponent::Comment(c) = c {
      assert_eq!(&s[c.span.start..c.span.end], c.content);
    }
  }
''', 'a comment inside a continued command with trailing blanks', 'reported comment content differs from the text under its span')

bug('c02-env-value-span',
    [('src/instructions/env.rs', '''          BreakableString::new(&field).add_string(&field, field.as_str())''',
      '''          BreakableString::new(span).add_string(&field, field.as_str())''')],
    '''
  let s = "ENV abc=d\\n";
  let d = doc(s);
  let e = d.instructions[0].as_env().unwrap();
  let sp = e.vars[0].value.span;
  assert_eq!(&s[sp.start..sp.end], "d");
''', 'an unquoted ENV pair', 'the span of the value covers the whole pair')

bug('c03-comment-continues',
    [(G, 'comment = @{ "#" ~ (!NEWLINE ~ ANY)* }', 'comment = @{ "#" ~ (line_continuation | !NEWLINE ~ ANY)* }')],
    '''
  let d = doc("FROM a\\n# see C:\\\\\\nRUN b\\n");
  assert_eq!(d.instructions.len(), 2);
''', 'a comment line that ends in a backslash', 'the comment swallows the following instruction')

bug('c21-glued-continuation',
    [(G, 'any_whitespace = _{ (!(NEWLINE | EOI | arg_ws) ~ ANY)+ }', 'any_whitespace = _{ (!(NEWLINE | EOI | ws) ~ ANY)+ }')],
    '''
  let s = "COPY a b\\\\\\n c\\nRUN d\\n";
  let d = doc(s);
  let c = d.instructions[0].as_copy().unwrap();
  for p in &c.sources { assert!(!s[p.span.start..p.span.end].contains('\\n') && !p.content.contains('\\\\')); }
  assert_eq!(c.sources.len(), 2);
''', 'a line continuation glued to a path', 'a path swallows the backslash of the continuation')

bug('c04-mixed-case-entrypoint',
    [(G, 'entrypoint = { ^"entrypoint" ~', 'entrypoint = { ("entrypoint" | "ENTRYPOINT" | "Entrypoint") ~')],
    '''
  let d = doc("EntryPoint [\\"a\\"]\\n");
  assert!(d.instructions[0].as_entrypoint().is_some());
''', 'an ENTRYPOINT keyword in an unusual mix of letter case', 'it is reported as a generic instruction')

bug('c04-arg-prefix',
    [(G, 'arg = { ^"arg" ~ arg_ws ~', 'arg = { ^"arg" ~ arg_ws_maybe ~')],
    '''
  let d = doc("ARGs\\nRUN x\\n".replace("ARGs", "ARGS x").as_str());
  assert_eq!(d.instructions[0].as_misc().unwrap().instruction.content, "ARGS");
''', 'an unknown keyword that begins with ARG', 'the word is read as ARG and a name')

bug('c04-misc-lowercased',
    [('src/instructions/misc.rs', 'Rule::misc_instruction => instruction = Some(parse_string(&field)?),',
      '''Rule::misc_instruction => {
          let mut word = parse_string(&field)?;
          if word.content.chars().any(|c| c.is_ascii_lowercase()) {
            word.content.make_ascii_lowercase();
          }
          instruction = Some(word)
        },''')],
    '''
  let d = doc("WorkDir /a\\n");
  assert_eq!(d.instructions[0].as_misc().unwrap().instruction.content, "WorkDir");
''', 'a generic keyword in mixed case', 'the keyword is not reported as written')

bug('c05-blank-piece-dropped',
    [(UTL, '''      Rule::any_content => components.push(SpannedString {''',
      '''      Rule::any_content if field.as_str().trim().is_empty() => continue,
      Rule::any_content => components.push(SpannedString {''')],
    '''
  let d = doc("RUN a\\\\\\n  \\\\\\nb\\n");
  assert_eq!(d.instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), "a  b");
''', 'a continued command with a piece made of blanks only', 'the blanks vanish from the command Docker would run')

bug('c05-adjacent-comments-merged',
    [(UTL, '''      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),
      }.into()),''', '''      Rule::comment if matches!(components.last(), Some(BreakableStringComponent::Comment(_))) => continue,
      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),
      }.into()),''')],
    '''
  let d = doc("RUN a \\\\\\n# one\\n# two\\n b\\n");
  let sh = d.instructions[0].as_run().unwrap().as_shell().unwrap();
  let n = sh.iter_components().filter(|c| matches!(c, BreakableStringComponent::Comment(_))).count();
  assert_eq!(n, 2);
''', 'two comment lines in a row inside a continued command', 'the second comment is not reported')

bug('c06-blank-before-comma',
    [(G, '(arg_ws_maybe ~ "," ~ arg_ws_maybe ~ string)* ~', '("," ~ arg_ws_maybe ~ string)* ~')],
    '''
  let d = doc("RUN [\\"a\\" , \\"b\\"]\\n");
  assert_eq!(d.instructions[0].as_run().unwrap().as_exec().unwrap().as_str_vec(), vec!["a", "b"]);
''', 'blanks before a comma in an exec array', 'the array is taken for a shell command')

bug('c06-empty-elements-skipped',
    [(UTL, '''        elements.push(parse_string(&field)?);''', '''        let element = parse_string(&field)?;
        if !element.content.is_empty() {
          elements.push(element);
        }''')],
    '''
  let d = doc("CMD [\\"a\\", \\"\\", \\"b\\"]\\n");
  assert_eq!(d.instructions[0].as_cmd().unwrap().as_exec().unwrap().as_str_vec(), vec!["a", "", "b"]);
''', 'an empty element in an exec array', 'the element is left out')

bug('c06-as-str-vec-dedup',
    [(UTL, '''    self.elements.iter().map(|c| c.as_ref()).collect()''', '''    let mut v: Vec<&str> = self.elements.iter().map(|c| c.as_ref()).collect();
    v.dedup();
    v''')],
    '''
  let d = doc("CMD [\\"a\\", \\"a\\"]\\n");
  assert_eq!(d.instructions[0].as_cmd().unwrap().as_exec().unwrap().as_str_vec(), vec!["a", "a"]);
''', 'an array with two equal elements in a row', 'as_str_vec drops one of them')

bug('c07-flag-value-equals',
    [(G, 'from_flag_value = @{ any_whitespace }', 'from_flag_value = @{ (!"=" ~ !arg_ws ~ !NEWLINE ~ ANY)+ }')],
    '''
  let d = doc("FROM --platform=a=b img\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().flags[0].value.content, "a=b");
''', 'a FROM flag whose value contains an equals sign', 'the line is not reported as that FROM')

bug('c07-as-case',
    [(G, 'from_alias_outer = _{ arg_ws ~ ^"as" ~', 'from_alias_outer = _{ arg_ws ~ ("as" | "AS") ~')],
    '''
  let d = doc("FROM a As b\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "b");
''', 'the word AS in mixed case', 'the alias is not recognised')

bug('c07-index-skips-scratch',
    [(D, '''        from_index += 1;''', '''        if from.image.content != "scratch" {
          from_index += 1;
        }''')],
    '''
  let d = doc("FROM scratch\\nFROM a\\nFROM b\\n");
  let v: Vec<usize> = d.instructions.iter().map(|i| i.as_from().unwrap().index).collect();
  assert_eq!(v, vec![0, 1, 2]);
''', 'FROM scratch followed by another FROM', 'the position of later FROMs is off')

bug('c08-digest-too-long',
    [('src/instructions/from.rs', 'hexdata.len() != 64', 'hexdata.len() < 64')],
    '''
  let ok = "a".repeat(64);
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}\\n", ok)).is_ok());
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}0\\n", ok)).is_err());
''', 'a digest with more than 64 digits', 'it is accepted')

bug('c08-hex-range',
    [('src/instructions/from.rs', '[0-9a-fA-F]', '[0-9a-fA-Z]')],
    '''
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}\\n", "A".repeat(64))).is_ok());
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}G\\n", "a".repeat(63))).is_err());
''', 'a digest with an upper-case letter past F', 'it is accepted')

bug('c09-tag-and-digest',
    [(IMG, '''      ImageRef {
        registry,
        image: image.to_string(),
        hash: Some(hash[1..].to_string()),
        tag: None
      }''', '''      let mut image_parts = image.splitn(2, ':');

      ImageRef {
        registry,
        image: image_parts.next().unwrap_or("").to_string(),
        hash: Some(hash[1..].to_string()),
        tag: image_parts.next().map(String::from)
      }''')],
    '''
  assert_eq!(ImageRef::parse("a:1@sha256:00").to_string(), "a:1@sha256:00");
''', 'a reference with both a tag and a digest', 'the digest is lost when the reference is displayed')

bug('c09-empty-tag-lost',
    [(IMG, '''      write!(f, ":{}", tag)?;''', '''      if !tag.is_empty() {
        write!(f, ":{}", tag)?;
      }''')],
    '''
  assert_eq!(ImageRef::parse("a:").to_string(), "a:");
''', 'a reference that ends in a colon', 'the colon is lost on display')

bug('c10-tag-from-last-colon',
    [(IMG, '''      let parts: Vec<&str> = image_full.splitn(2, ':').collect();
      let image = parts[0].to_string();
      let tag = parts.get(1).map(|p| String::from(*p));
''', '''      let mut parts: Vec<&str> = image_full.rsplitn(2, ':').collect();
      parts.reverse();
      let image = parts[0].to_string();
      let tag = parts.get(1).map(|p| String::from(*p));
''')],
    '''
  let i = ImageRef::parse("a:b:c");
  assert_eq!((i.image.as_str(), i.tag.as_deref()), ("a", Some("b:c")));
''', 'an image text with two colons after the registry', 'name and tag are split at the wrong colon')

bug('c10-localhost-prefix',
    [(IMG, '''token == "localhost" ||''', '''token.starts_with("localhost") ||''')],
    '''
  assert_eq!(ImageRef::parse("localhosts/a").registry, None);
''', 'an organisation whose name begins with localhost', 'it is taken for a registry')

bug('c10-digest-at-last',
    [(IMG, '''image_full.find('@')''', '''image_full.rfind('@')''')],
    '''
  let i = ImageRef::parse("a@b@c");
  assert_eq!((i.image.as_str(), i.hash.as_deref()), ("a", Some("b@c")));
''', 'an image text with two at signs', 'the digest is split off at the wrong one')

bug('c11-first-value-wins',
    [(IMG, '''    let vars: HashMap<&'a str, &'a str> = HashMap::from_iter(
      dockerfile.global_args
        .iter()
''', '''    let vars: HashMap<&'a str, &'a str> = HashMap::from_iter(
      dockerfile.global_args
        .iter()
        .rev()
''')],
    '''
  let d = doc("ARG v=1\\nARG v=2\\nFROM a:$v\\n");
  let i = d.instructions[2].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap();
  assert_eq!(i.tag.as_deref(), Some("2"));
''', 'a global ARG defined twice', 'the first value wins')

bug('c11-nested-names-lost',
    [(IMG, '''      used_vars,
      max_recursion_depth''', '''      &mut HashSet::new(),
      max_recursion_depth''')],
    '''
  let d = doc("ARG v=1\\nARG w=$v\\nFROM a:$w\\n");
  let (_, u) = d.instructions[2].as_from().unwrap().image_parsed.resolve_vars_with_context(&d).unwrap();
  let mut u: Vec<String> = u.into_iter().collect();
  u.sort();
  assert_eq!(u, vec!["v", "w"]);
''', 'a variable whose value refers to another', 'the inner name is not reported as used')

bug('c11-braced-digits',
    [(IMG, r'''\{([A-Za-z0-9_]+)\}''', r'''\{([A-Za-z_]+)\}''')],
    '''
  let d = doc("ARG v1=x\\nFROM a:${v1}\\n");
  let i = d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap();
  assert_eq!(i.tag.as_deref(), Some("x"));
''', 'a braced reference to a name with a digit', 'it is left in place')

bug('c11-depth-off-by-one',
    [(IMG, '''    if max_recursion_depth == 0 {''', '''    if max_recursion_depth <= 1 {''')],
    '''
  let mut s = String::from("ARG a0=x\\n");
  for i in 1..16 { s += &format!("ARG a{}=$a{}\\n", i, i - 1); }
  s += "FROM $a15\\n";
  let d = doc(&s);
  let i = d.instructions[16].as_from().unwrap().image_parsed.resolve_vars(&d);
  assert_eq!(i.unwrap().image, "x");
''', 'references nested exactly sixteen deep', 'they are refused')

bug('c11-valueless-empty',
    [(IMG, '''          None => None
        })''', '''          None => Some((a.name.as_ref(), ""))
        })''')],
    '''
  let d = doc("ARG v\\nFROM a:$v\\n");
  assert!(d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d).is_none());
''', 'a global ARG without a value', 'it resolves to the empty text')

bug('c12-passthrough-arg-dropped',
    [(STG, '''      } else if !stages.stages.is_empty() {
        let len''', '''      } else if !stages.stages.is_empty() && ins.as_arg().map_or(true, |a| a.value.is_some()) {
        let len''')],
    '''
  let d = doc("ARG v=1\\nFROM a\\nARG v\\nRUN x\\n");
  assert_eq!(d.stages()[0].instructions.len(), 3);
''', 'an ARG without value inside a stage', 'the stage does not list it')

bug('c12-name-case',
    [(STG, '''name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase()),''',
      '''name: from.alias.as_ref().map(|a| a.as_ref().to_string()),'''),
     (STG, '''self.stages.iter().find(|s| s.name == Some(name.to_ascii_lowercase()))''',
      '''self.stages.iter().find(|s| s.name.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(name)))''')],
    '''
  let d = doc("FROM a AS Build\\n");
  assert_eq!(d.stages()[0].name.as_deref(), Some("build"));
''', 'an alias with upper-case letters', 'the stage name is not lower-cased any more')

bug('c13-root-of-parent-only',
    [(STG, 'stages.stages[parent_stage].root.clone()', 'stages.stages[parent_stage].parent.clone()')],
    '''
  let d = doc("FROM a AS b\\nFROM b AS c\\nFROM c\\n");
  let s = d.stages();
  assert_eq!(s[2].root.to_string(), "a");
''', 'a chain of three stages', 'the root is the grandparent stage')

bug('c13-parent-by-number',
    [(STG, 'stages.get_by_name(&image_name)', 'stages.get(&image_name)')],
    '''
  let d = doc("FROM a\\nFROM 0\\n");
  assert!(matches!(d.stages()[1].parent, StageParent::Image(_)));
''', 'an image whose name is a number', 'it is taken for the stage of that number')

bug('c13-scratch-case',
    [(STG, 'if image_name == "scratch" {', 'if from.image.as_ref() == "scratch" {')],
    '''
  let d = doc("FROM Scratch\\n");
  assert!(matches!(d.stages()[0].parent, StageParent::Scratch));
''', 'scratch in upper or mixed case', 'it is reported as an image')

bug('c14-last-duplicate',
    [(STG, 'self.stages.iter().find(|s| s.name', 'self.stages.iter().rev().find(|s| s.name')],
    '''
  let d = doc("FROM a AS x\\nFROM b AS X\\n");
  assert_eq!(d.stages().get_by_name("x").unwrap().index, 0);
''', 'two stages with the same alias', 'the later one is found')

bug('c14-number-falls-back',
    [(STG, 'Ok(index) => self.stages.get(index),', 'Ok(index) => self.stages.get(index).or_else(|| self.get_by_name(s)),')],
    '''
  let d = doc("FROM a AS 7\\n");
  assert!(d.stages().get("7").is_none());
''', 'an alias that is a number beyond the stages', 'a lookup by that number finds the alias')

bug('c14-arg-ignoring-case',
    [(STG, 'if a.name.content == name { Some(i) }', 'if a.name.content.eq_ignore_ascii_case(name) { Some(i) }')],
    '''
  let d = doc("FROM a\\nARG V\\nARG v\\n");
  assert_eq!(d.stages()[0].arg_index("v"), Some(2));
''', 'two ARGs that differ in letter case', 'the wrong one is found')

bug('c15-adjacent-end',
    [(SPL, '} else if splice.position < end as usize {', '} else if splice.position <= end as usize {')],
    '''
  let d = doc("FROM a AS b\\nENV x=\\"1\\"\\n");
  let v = &d.instructions[1].as_env().unwrap().vars[0];
  let mut s = d.splicer();
  let f = &d.instructions[0].as_from().unwrap();
  s.splice(&Span::new(5, 6), "zz");
  s.splice(&Span::new(0, 5), "FROM  ");
  assert_eq!(s.content, "FROM  zz AS b\\nENV x=\\"1\\"\\n");
  let d = doc("COPY --a=b c d\\n");
  let f = &d.instructions[0].as_copy().unwrap().flags[0];
  let d2 = doc("ENV a=b\\\\\\nc\\n".replace("\\\\\\n", "").as_str());
  let e = &d2.instructions[0].as_env().unwrap().vars[0];
  let d3 = doc("FROM --p=q img");
  let g = &d3.instructions[0].as_from().unwrap();
  let d4 = doc("RUN a\\\\\\n#c\\nb");
  let sh = d4.instructions[0].as_run().unwrap().as_shell().unwrap();
  let d5 = doc("MAINTAINER x");
  let m = d5.instructions[0].as_misc().unwrap();
  let mut s = d5.splicer();
  s.splice(&m.arguments.span, " someone else");
  s.splice(&m.instruction.span, "LABEL");
  assert_eq!(s.content, "LABEL someone else");
''', 'two spans that touch, the later one spliced first', 'the earlier splice eats part of the replacement')

bug('c15-char-offset',
    [(SPL, 'let new_len = replacement.len();', 'let new_len = replacement.chars().count();')],
    '''
  let d = doc("FROM a AS b\\n");
  let f = d.instructions[0].as_from().unwrap();
  let mut s = d.splicer();
  s.splice(&f.image.span, "\\u{e9}\\u{e9}");
  s.splice(&f.alias.as_ref().unwrap().span, "c");
  assert_eq!(s.content, "FROM \\u{e9}\\u{e9} AS c\\n");
''', 'a replacement with multi-byte characters followed by another splice', 'later splices land in the wrong place')

bug('c15-enclosing-shrink',
    [(SPL, '''      } else if splice.position < end as usize {
        end += splice.offset;''', '''      } else if splice.position < end as usize && splice.offset > 0 {
        end += splice.offset;''')],
    '''
  let d = doc("FROM abc AS b\\nRUN x\\n");
  let f = d.instructions[0].as_from().unwrap();
  let mut s = d.splicer();
  s.splice(&f.image.span, "z");
  s.splice(&f.span, "FROM q");
  assert_eq!(s.content, "FROM q\\nRUN x\\n");
''', 'an inner span shortened before its enclosing span is replaced', 'text after the enclosing span is eaten')

bug('c16-counts-characters',
    [(SPL, 'dockerfile.content.as_bytes().iter().enumerate()', 'dockerfile.content.chars().enumerate()'),
     (SPL, "if *c == b'\\n' {", "if c == '\\n' {")],
    '''
  let d = doc("# \\u{e9}\\nRUN x\\n");
  assert_eq!(d.instructions[0].span().relative_span(&d), (1, Span::new(0, 5)));
''', 'a multi-byte character before the span', 'line and column are wrong')

bug('c16-counts-cr',
    [(SPL, "if *c == b'\\n' {", "if *c == b'\\n' || *c == b'\\r' {")],
    '''
  let d = doc("FROM a\\r\\nRUN x\\r\\n");
  assert_eq!(d.instructions[1].span().relative_span(&d).0, 1);
''', 'CRLF newlines', 'lines are counted twice')

bug('c17-same-key-replaced',
    [('src/instructions/env.rs', 'Rule::env_pair => vars.push(parse_env_pair(field)?),', '''Rule::env_pair => {
          let var = parse_env_pair(field)?;
          vars.retain(|v: &EnvVar| v.key.content != var.key.content);
          vars.push(var)
        },''')],
    '''
  let d = doc("ENV a=1 b=2 a=3\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars.len(), 3);
''', 'an ENV that sets the same name twice', 'the first pair is dropped')

bug('c17-single-quoted-trim',
    [('src/instructions/env.rs', '''        Rule::env_single_quoted_value => {
          let v = unquote(field.as_str()).context(UnescapeError)?;
''', '''        Rule::env_single_quoted_value => {
          let v = unquote(field.as_str().trim_matches('\\'')).context(UnescapeError)?;
''')],
    '''
  let d = doc("ENV a 'b c'\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars[0].value.to_string(), "b c");
''', 'a single-quoted ENV value in the blank-separated form', 'it is refused')

bug('c18-value-equals',
    [(G, 'label_value = ${ any_whitespace }', 'label_value = ${ any_equals }')],
    '''
  let d = doc("LABEL a=b=c\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].value.content, "b=c");
''', 'an unquoted label value containing an equals sign', 'the line is no longer that label')

bug('c18-continuation-space',
    [(UTL, '      cleaned.push_str(&rest[..pos]);\n', '      cleaned.push_str(rest[..pos].trim_end());\n')],
    '''
  let d = doc("LABEL a=\\"b \\\\\\n c\\"\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].value.content, "b  c");
''', 'a quoted label with blanks before the continuation', 'the blanks are lost')

bug('c18-quoted-single-name',
    [('src/instructions/label.rs', '''        Rule::label_name | Rule::label_single_name => name = Some(parse_string(&field)?),
        Rule::label_quoted_name | Rule::label_single_quoted_name => {''',
      '''        Rule::label_name | Rule::label_single_name | Rule::label_single_quoted_name => name = Some(parse_string(&field)?),
        Rule::label_quoted_name => {''')],
    '''
  let d = doc("LABEL \\"a\\\\\\nb\\" c\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].name.content, "ab");
''', 'a quoted name in the blank-separated form with a continuation inside', 'it is rejected')

bug('c19-single-quotes',
    [(G, 'arg_quoted_value = ${ string }', 'arg_quoted_value = ${ double_quoted_string }')],
    '''
  let d = doc("ARG a='b c'\\n");
  assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b c");
''', 'a single-quoted ARG default with a blank', 'it is rejected')

bug('c19-empty-quoted-none',
    [('src/instructions/arg.rs', '''        Rule::arg_quoted_value => value = Some(parse_string(&field)?),''',
      '''        Rule::arg_quoted_value => value = Some(parse_string(&field)?).filter(|v| !v.content.is_empty()),''')],
    '''
  let d = doc("ARG a=\\"\\"\\n");
  assert!(d.instructions[0].as_arg().unwrap().value.is_some());
''', 'an ARG with an empty quoted default', 'it is reported as having no default')

bug('c20-flag-equals',
    [(G, 'copy_flag_value = @{ any_whitespace }', 'copy_flag_value = @{ any_equals }')],
    '''
  let d = doc("COPY --exclude=a=b x y\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().flags.len(), 1);
''', 'a COPY flag whose value contains an equals sign', 'the flag becomes a source path or the line is refused')

bug('c20-same-source-once',
    [('src/instructions/copy.rs', '''    Ok(CopyInstruction {
      span,
      flags,
      sources: paths,''', '''    paths.dedup_by(|a, b| a.content == b.content);

    Ok(CopyInstruction {
      span,
      flags,
      sources: paths,''')],
    '''
  let d = doc("COPY a a b\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().sources.len(), 2);
''', 'the same source named twice in a row', 'one of them is dropped')

bug('c21-leading-tab',
    [(G, 'meta_step = _{ ws* ~ (step | comment)? ~ ws* }', 'meta_step = _{ " "* ~ (step | comment)? ~ ws* }')],
    '''
  assert!(Dockerfile::parse("\\tFROM a\\n").is_ok());
''', 'an instruction indented with a tab', 'the document is rejected')

bug('c21-empty-line-after-continuation',
    [(G, 'arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }', 'arg_ws = _{ (ws | line_continuation ~ (empty_line* ~ comment_line)*)+ }')],
    '''
  let d = doc("FROM a \\\\\\n\\n  as b\\n");
  assert!(d.instructions[0].as_from().unwrap().alias.is_some());
''', 'a blank line after a continuation between arguments', 'the instruction ends early')

bug('c22-comment-cr',
    [(G, 'comment = @{ "#" ~ (!NEWLINE ~ ANY)* }', 'comment = @{ "#" ~ (!"\\n" ~ ANY)* }')],
    '''
  let d = doc("# x\\rFROM a\\r");
  assert_eq!(d.instructions.len(), 1);
''', 'a comment in a document with lone CR newlines', 'the rest of the document becomes comment')

bug('c22-content-cr',
    [(G, '''any_content = @{
  (
    !NEWLINE ~''', '''any_content = @{
  (
    !("\\n" | "\\r\\n") ~''')],
    '''
  let d = doc("RUN a\\rRUN b\\r");
  assert_eq!(d.instructions.len(), 2);
''', 'a shell command in a document with lone CR newlines', 'the command swallows the following line')

bug('c23-inherited-arg',
    [(D, '''        if !from_found {
          global_args.push(arg.clone());
        }''', '''        if !from_found {
          global_args.push(arg.clone());
        } else if arg.value.is_none() {
          if let Some(g) = global_args.iter().find(|g: &&ArgInstruction| g.name.content == arg.name.content) {
            arg.value = g.value.clone();
          }
        }'''), (D, '      Instruction::Arg(ref arg) => {\n        // args preceding', '      Instruction::Arg(ref mut arg) => {\n        // args preceding')],
    '''
  let d = doc("ARG v=1\\nFROM a\\nARG v\\n");
  assert!(d.instructions[2].as_arg().unwrap().value.is_none());
''', 'an ARG without value in a stage after a global one with that name', 'its content depends on earlier lines')

bug('c24-lossy',
    [(D, '''    let mut buf = String::new();
    let mut buf_reader = BufReader::new(reader);
    buf_reader.read_to_string(&mut buf).context(ReadError)?;

    Dockerfile::parse(&buf)''', '''    let mut buf = Vec::new();
    let mut buf_reader = BufReader::new(reader);
    buf_reader.read_to_end(&mut buf).context(ReadError)?;

    Dockerfile::parse(&String::from_utf8_lossy(&buf))''')],
    '''
  assert!(Dockerfile::from_reader(&b"FROM a\\n# \\xff\\n"[..]).is_err());
''', 'bytes that are not valid UTF-8', 'a document is returned for a different text')

bug('c24-one-read',
    [(D, '''    let mut buf = String::new();
    let mut buf_reader = BufReader::new(reader);
    buf_reader.read_to_string(&mut buf).context(ReadError)?;
''', '''    use std::io::BufRead;

    let mut buf = String::new();
    let mut buf_reader = BufReader::new(reader);
    while buf_reader.read_line(&mut buf).context(ReadError)? > 1 {}
''')],
    '''
  let s = "FROM a\\n\\nRUN b\\n";
  assert_eq!(Dockerfile::from_reader(s.as_bytes()).unwrap(), Dockerfile::parse(s).unwrap());
''', 'a reader whose text has an empty line', 'reading stops there')

bug('c25-wrong-type-named',
    [('src/instructions/entrypoint.rs', 'to: "EntrypointInstruction".into()', 'to: "CmdInstruction".into()')],
    '''
  let d = doc("RUN a\\n");
  let r: std::result::Result<&EntrypointInstruction, Error> = (&d.instructions[0]).try_into();
  match r {
    Err(Error::ConversionError { to, .. }) => assert_eq!(to, "EntrypointInstruction"),
    _ => panic!()
  }
''', 'a failed conversion to EntrypointInstruction', 'the error names another type')

bug('c25-into-exec-empty',
    [(UTL, '''  pub fn into_exec(self) -> Option<StringArray> {
    if let ShellOrExecExpr::Exec(s) = self {
      Some(s)''', '''  pub fn into_exec(self) -> Option<StringArray> {
    if let ShellOrExecExpr::Exec(s) = self {
      Some(s).filter(|s| !s.elements.is_empty())''')],
    '''
  let d = doc("CMD []\\n");
  assert!(d.instructions[0].clone().into_cmd().unwrap().into_exec().is_some());
''', 'an exec form with an empty array taken by value', 'the exec view is absent')

bug('c26-lookup-case',
    [(D, 'if a.name.content == name {', 'if a.name.content.eq_ignore_ascii_case(name) {')],
    '''
  let d = doc("ARG V=1\\nARG v=2\\nFROM a\\n");
  assert_eq!(d.get_global_arg("v").unwrap().value.as_ref().unwrap().content, "2");
''', 'two global ARGs differing in letter case', 'the wrong one is returned')

bug('c26-redefinition-dropped',
    [(D, '''        if !from_found {
          global_args.push''', '''        if !from_found && !global_args.iter().any(|a: &ArgInstruction| a.name.content == arg.name.content) {
          global_args.push''')],
    '''
  let d = doc("ARG v\\nARG v=2\\nFROM a\\n");
  assert_eq!(d.global_args.len(), 2);
''', 'a global ARG declared twice', 'the list of global ARGs misses the second')

bug('c26-misc-ends-globals',
    [(D, '''      _ => ()
    };

    instructions.push''', '''      Instruction::Misc(_) => from_found = true,
      _ => ()
    };

    instructions.push''')],
    '''
  let d = doc("MAINTAINER x\\nARG v=2\\nFROM a\\n");
  assert_eq!(d.global_args.len(), 1);
''', 'a generic instruction before a global ARG', 'the ARG does not count as global')

# second wave ----------------------------------------------------------------
L = 'src/instructions/label.rs'
E = 'src/instructions/env.rs'
C = 'src/instructions/copy.rs'
AR = 'src/instructions/arg.rs'
F = 'src/instructions/from.rs'
RN = 'src/instructions/run.rs'
MS = 'src/instructions/misc.rs'

bug('c02-env-single-span-starts-at-value',
    [(E, 'span: Span::new(key.span.start, value.span.end),', 'span: Span::new(key.span.start, value.components.iter().map(|c| match c { BreakableStringComponent::String(s) => s.span.end, BreakableStringComponent::Comment(_) => 0 }).max().unwrap_or(value.span.end)),')],
    '''
  let t = "ENV a b \\\\\\n c\\n";
  let d = doc(t);
  let e = d.instructions[0].as_env().unwrap();
  assert_eq!(e.vars[0].span.end, e.vars[0].value.span.end);
  let t = "ENV a b \\\\\\n# c\\n\\n";
  let d = doc(t);
  let e = d.instructions[0].as_env().unwrap();
  assert!(e.vars[0].span.end >= e.vars[0].value.span.end);
''', 'a single-variable ENV whose value ends in a comment or an empty continued line',
    'the span of the variable ends before the value it contains')

bug('c02-span-u16',
    [(SPL, '''    Span {
      start: pest_span.start(),
      end: pest_span.end()
    }''', '''    Span {
      start: pest_span.start() as u16 as usize,
      end: pest_span.end() as u16 as usize
    }''')],
    '''
  let t = format!("#{}\\nFROM a\\n", "x".repeat(70000));
  let d = doc(&t);
  let s = d.instructions[0].span();
  assert_eq!(&t[s.start..s.end], "FROM a");
''', 'a document longer than 65535 bytes', 'positions wrap around')

bug('c03-repeated-line-once',
    [(D, '''    let mut instruction = Instruction::try_from(record)?;''', '''    // a line pasted twice has no further effect
    let text = record.as_str();
    if previous == Some(text) {
      continue;
    }
    previous = Some(text);

    let mut instruction = Instruction::try_from(record)?;'''),
     (D, '  let mut from_index = 0;\n', '  let mut from_index = 0;\n  let mut previous = None;\n')],
    '''
  assert_eq!(doc("FROM a\\nRUN x\\nRUN x\\n").instructions.len(), 3);
''', 'two equal instructions in a row', 'the second one is not reported')

bug('c03-maintainer-ignored',
    [(D, '''      _ => ()
    };

    instructions.push''', '''      // deprecated, has no effect on a build
      Instruction::Misc(ref misc) if misc.instruction.content.eq_ignore_ascii_case("maintainer") => continue,
      _ => ()
    };

    instructions.push''')],
    '''
  assert_eq!(doc("FROM a\\nMAINTAINER x\\n").instructions.len(), 2);
''', 'a MAINTAINER instruction', 'it is not reported')

bug('c05-display-joins-with-blank',
    [(UTL, '''        write!(f, "{}", s.content)?;''', '''        // keep words of different lines apart
        if f.width().is_none() && s.content.starts_with('&') && !s.content.starts_with("&&") {
          write!(f, " ")?;
        }
        write!(f, "{}", s.content)?;''')],
    '''
  assert_eq!(doc("RUN a \\\\\\n& b\\n").instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), "a & b");
''', 'a continued line that begins with a single ampersand', 'the displayed command has an extra blank')

bug('c06-quoted-element-trimmed',
    [(UTL, '''        elements.push(parse_string(&field)?);''', '''        let mut s = parse_string(&field)?;
        // a trailing newline is never part of an argument
        if s.content.ends_with('\\n') {
          s.content.pop();
        }
        elements.push(s);''')],
    '''
  let d = doc("RUN [\\"a\\\\n\\"]\\n");
  assert_eq!(d.instructions[0].as_run().unwrap().as_exec().unwrap().as_str_vec(), vec!["a\\n"]);
''', 'an element ending in an escaped newline', 'the element loses it')

bug('c07-repeated-flag-replaced',
    [(F, "        Rule::from_flag => flags.push(FromFlag::from_record(field)?),        ", '''        Rule::from_flag => {
          let flag = FromFlag::from_record(field)?;
          flags.retain(|f: &FromFlag| f.name.content != flag.name.content);
          flags.push(flag);
        },''')],
    '''
  let d = doc("FROM --p=a --p=b c\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().flags.len(), 2);
''', 'a FROM that gives one flag twice', 'only the last is reported')

bug('c07-index-u8',
    [(D, '        from.index = from_index;\n        from_index += 1;', '        from.index = from_index as usize;\n        from_index = from_index.wrapping_add(1u8);'), (D, 'let mut from_index = 0;', 'let mut from_index = 0u8;')],
    '''
  let t = "FROM a\\n".repeat(300);
  let d = doc(&t);
  assert_eq!(d.instructions[299].as_from().unwrap().index, 299);
''', 'more than 256 FROM instructions', 'the position wraps to zero')

bug('c07-alias-same-as-image',
    [(F, '''      Some(parse_string(&alias_field)?)
    } else {''', '''      Some(parse_string(&alias_field)?).filter(|a| a.content != image.content)
    } else {''')],
    '''
  let d = doc("FROM node AS node\\n");
  assert!(d.instructions[0].as_from().unwrap().alias.is_some());
''', 'an alias equal to the image text', 'the alias is not reported')

bug('c08-digest-of-stage-variable',
    [(F, 'if let Some(hash) = &image_parsed.hash {', "if let Some(hash) = image_parsed.hash.as_ref().filter(|_| !image_parsed.image.starts_with('$')) {")],
    '''
  assert!(Dockerfile::parse("FROM $a@sha256:xyz\\n").is_err());
''', 'a malformed digest after a variable', 'the document is accepted')

bug('c09-registry-lowercased',
    [(IMG, '''      (Some(parts[0].to_string()), parts[1])''', '''      // host names are case insensitive
      (Some(parts[0].to_ascii_lowercase()), parts[1])''')],
    '''
  assert_eq!(ImageRef::parse("A.B/c").to_string(), "A.B/c");
''', 'an upper-case letter in a registry name', 'displaying gives another text')

bug('c10-port-needs-digits',
    [(IMG, "token.contains('.') || token.contains(':')", "token.contains('.') || token.rfind(':').map_or(false, |p| token[p + 1..].bytes().all(|c| c.is_ascii_digit()))")],
    '''
  assert_eq!(ImageRef::parse("a:b/c").registry, Some("a:b".to_string()));
''', 'a registry with a colon followed by other than digits', 'it is not taken as registry')

bug('c11-empty-value-skipped',
    [(IMG, '''          Some(v) => Some((a.name.as_ref(), v.as_ref())),''', '''          Some(v) if !v.content.is_empty() => Some((a.name.as_ref(), v.as_ref())),
          Some(_) => None,''')],
    '''
  let d = doc("ARG a=\\"\\"\\nFROM x$a\\n");
  let i = d.instructions[1].as_from().unwrap();
  assert_eq!(i.image_parsed.resolve_vars(&d).unwrap().image, "x");
''', 'a global ARG whose default is the empty string', 'references to it do not resolve')

bug('c11-used-kept-on-repeat',
    [(IMG, '''    let var_content = vars.get(var_name.as_str())?;''', '''    let var_content = vars.get(var_name.as_str())?;
    if used_vars.contains(var_name.as_str()) && !var_content.contains('{') && var_content.contains('$') {
      // seen before: insert as it is, its references are accounted for
      splicer.splice(&Span::new(full_range.start, full_range.end), var_content);
      continue;
    }''')],
    '''
  let d = doc("ARG a=$b\\nARG b=c\\nFROM $a/$a\\n");
  let i = d.instructions[2].as_from().unwrap();
  assert_eq!(i.image_parsed.resolve_vars(&d).unwrap().to_string(), "c/c");
''', 'one variable with a nested reference used twice', 'the second use is left unresolved')

bug('c12-name-of-numeric-alias',
    [(STG, '''          name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase()),''', '''          // a number would be ambiguous
          name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase())
            .filter(|a| a.parse::<usize>().is_err()),''')],
    '''
  let d = doc("FROM a AS b1\\nFROM c AS 7\\n");
  assert_eq!(d.stages().stages[1].name, Some("7".to_string()));
''', 'an alias that is a number', 'the stage has no name')

bug('c12-stage-eq-parent',
    [(STG, "    self.index.cmp(&other.index)", "    (self.index as u8).cmp(&(other.index as u8))")],
    '''
  let t = "FROM a\\n".repeat(300);
  let d = doc(&t);
  let s = d.stages();
  assert!(s.stages[1] < s.stages[256]);
''', 'more than 256 stages', 'stages compare by the low byte of their number')

bug('c13-stage-itself',
    [(STG, '''        let root = if let StageParent::Stage(parent_stage) = parent {
          stages.stages[parent_stage].root.clone()''', '''        let root = if let StageParent::Stage(parent_stage) = parent {
          // the chain is usually one long
          match stages.stages[parent_stage].parent {
            StageParent::Stage(p) => stages.stages[p].parent.clone(),
            ref other => other.clone()
          }''')],
    '''
  let d = doc("FROM x AS a\\nFROM a AS b\\nFROM b AS c\\nFROM c AS d\\n");
  let s = d.stages();
  assert!(matches!(s.stages[3].root, StageParent::Image(_)));
''', 'a chain of four stages', 'the root of the last is a stage')

bug('c13-tagged-scratch',
    [(STG, '''image_name == "scratch" {''', '''image_name == "scratch" || from.image_parsed.image == "scratch" && from.image_parsed.registry.is_none() {''')],
    '''
  let d = doc("FROM scratch:1\\n");
  assert!(matches!(d.stages().stages[0].parent, StageParent::Image(_)));
''', 'an image named scratch with a tag', 'the parent is scratch')

bug('c13-last-alias',
    [(STG, '''} else if let Some(stage) = stages.get_by_name(&image_name) {''', '''} else if let Some(stage) = stages.stages.iter().rev().find(|s| s.name.as_deref() == Some(&image_name[..])) {''')],
    '''
  let d = doc("FROM x AS a\\nFROM y AS a\\nFROM a\\n");
  assert_eq!(d.stages().stages[2].parent, StageParent::Stage(0));
''', 'two stages with the same alias', 'the later one becomes the parent')

bug('c14-signed-number',
    [(STG, "match s.parse::<usize>() {\n      Ok(index) => self.stages.get(index),", "match s.trim().parse::<usize>() {\n      Ok(index) => self.stages.get(index),")],
    '''
  let d = doc("FROM a\\n");
  assert!(d.stages().get(" 0").is_none());
''', 'a lookup with a blank beside the number', 'the stage is found')

bug('c14-unicode-case',
    [(STG, "find(|s| s.name == Some(name.to_ascii_lowercase()))", "find(|s| s.name == Some(name.to_lowercase()))")],
    '''
  let d = doc("FROM a AS k\\n");
  assert!(d.stages().get_by_name("\\u{212a}").is_none());
''', 'a lookup with the Kelvin sign', 'the stage named k is found')

bug('c14-arg-after-other',
    [(STG, '''    self.instructions
      .iter()
      .enumerate()
      .find_map''', '''    self.instructions
      .iter()
      .take(256)
      .enumerate()
      .find_map''')],
    '''
  let t = format!("FROM a\\n{}ARG b\\n", "RUN x\\n".repeat(300));
  let d = doc(&t);
  assert_eq!(d.stages().stages[0].arg_index("b"), Some(301));
''', 'an ARG after 256 other instructions', 'it is not found')

bug('c15-zero-offset-forgotten',
    [(SPL, '''        end += splice.offset;
      }
    }''', '''        end += splice.offset.max(0);
      }
    }''')],
    '''
  let t = "FROM abcdef as b\\nRUN x\\n";
  let d = doc(t);
  let f = d.instructions[0].as_from().unwrap();
  let mut s = d.splicer();
  s.splice(&f.image.span, "q");
  s.splice(&f.span, "FROM z");
  assert_eq!(s.content, "FROM z\\nRUN x\\n");
''', 'an enclosing span spliced after a shorter replacement inside it', 'too much is replaced')

bug('c15-same-start',
    [(SPL, "if splice.position < start as usize {", "if splice.position <= start as usize && splice.offset > 0 || splice.position < start as usize {")],
    '''
  let t = "RUN abc \\\\\\n d\\n";
  let d = doc(t);
  let r = d.instructions[0].as_run().unwrap().as_shell().unwrap();
  let p = match &r.components[0] { BreakableStringComponent::String(s) => s.span, _ => panic!() };
  let mut s = d.splicer();
  s.splice(&p, "longer text");
  s.splice(&r.span, "q");
  assert_eq!(s.content, "RUN q\\n");
''', 'an enclosing span that begins where an inner one begins, after a longer replacement', 'the wrong bytes are replaced')

bug('c16-crlf-two',
    [(SPL, '''        lines += 1;
        line_start_offset = i + 1;''', '''        lines += 1;
        line_start_offset = i + 1;
      } else if *c == b'\\x0c' {
        line_start_offset = i + 1;''')],
    '''
  let t = "RUN a\\x0cb\\n";
  let d = doc("RUN \\x0ca \\\\\\n b\\n");
  let r = d.instructions[0].as_run().unwrap().as_shell().unwrap();
  assert_eq!(r.span.relative_span(&d).1.start, 4);
  let d = doc("RUN x\\x0cy \\\\\\n b\\n");
  let r = d.instructions[0].as_run().unwrap().as_shell().unwrap();
  let c = match &r.components[1] { BreakableStringComponent::String(s) => s.span, _ => panic!() };
  assert_eq!(c.relative_span(&d), (1, Span::new(0, 2)));
  let d = doc("CMD [\\"\\x0c\\", \\"b\\"]");
  let c = d.instructions[0].as_cmd().unwrap().as_exec().unwrap();
  assert_eq!(c.elements[1].span.relative_span(&d).1.start, 10);
''', 'a form feed before a span on the same line', 'the column counts from the form feed')

bug('c16-u8-lines',
    [(SPL, '    (lines, Span { start, end })', '    (lines as u8 as usize, Span { start, end })')],
    '''
  let t = format!("{}FROM a\\n", "\\n".repeat(300));
  let d = doc(&t);
  assert_eq!(d.instructions[0].span().relative_span(&d).0, 300);
''', 'a span beyond line 255', 'the line number wraps')

bug('c17-empty-pair-dropped',
    [(E, "Rule::env_pair => vars.push(parse_env_pair(field)?),", '''Rule::env_pair => {
          let var = parse_env_pair(field)?;
          if var.value.span.end > var.value.span.start + 1 || !var.value.to_string().is_empty() || vars.is_empty() {
            if !(var.value.span.end - var.value.span.start == 2 && var.value.to_string().is_empty()) || vars.is_empty() {
              vars.push(var)
            }
          }
        },''')],
    '''
  let d = doc("ENV a=b c=\\"\\"\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars.len(), 2);
''', 'a second pair with an empty quoted value', 'the variable is not reported')

bug('c17-key-uppercased',
    [(E, "        Rule::env_name => key = Some(parse_string(&field)?),\n        Rule::env_single_value", "        Rule::env_name => key = Some(parse_string(&field)?).map(|mut k| { if k.content == \"path\" { k.content.make_ascii_uppercase() } k }),\n        Rule::env_single_value")],
    '''
  let d = doc("ENV path /x\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars[0].key.content, "path");
''', 'ENV path value', 'the name is changed')

bug('c18-same-name-replaced',
    [(L, "Rule::label_pair => labels.push(Label::from_record(field)?),", '''Rule::label_pair => {
          let label = Label::from_record(field)?;
          match labels.iter_mut().find(|l: &&mut Label| l.name.content == label.name.content) {
            Some(l) => *l = label,
            None => labels.push(label)
          }
        },''')],
    '''
  let d = doc("LABEL a=1 b=2 a=3\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels.len(), 3);
''', 'a label set twice in one instruction', 'only one is reported')

bug('c18-value-of-comment',
    [(L, "        Rule::label_pair => labels.push(Label::from_record(field)?),\n        Rule::label_single => labels.push(Label::from_record(field)?),\n        Rule::comment => continue,", "        Rule::label_pair => labels.push(Label::from_record(field)?),\n        Rule::label_single => labels.push(Label::from_record(field)?),\n        Rule::comment => break,")],
    '''
  let d = doc("LABEL a=1 \\\\\\n# c\\n b=2\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels.len(), 2);
''', 'a comment line between labels', 'the labels after it are not reported')

bug('c19-quoted-trailing-blank',
    [(AR, "Rule::arg_quoted_value => value = Some(parse_string(&field)?),", "Rule::arg_quoted_value => value = Some(parse_string(&field)?).map(|mut v| { let n = v.content.trim_end().len(); if n > 0 { v.content.truncate(n) } v }),")],
    '''
  let d = doc("ARG a=\\"b \\"\\n");
  assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b ");
''', 'a quoted default ending in a blank', 'the blank is lost')

bug('c19-self-default',
    [(AR, '''    Ok(ArgInstruction {
      span,
      name,
      value,''', '''    Ok(ArgInstruction {
      span,
      // a default that names the argument itself passes it through
      value: value.filter(|v| v.content.strip_prefix('$') != Some(&name.content[..])),
      name,''')],
    '''
  let d = doc("ARG a=$a\\n");
  assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "$a");
''', 'a default that refers to the argument itself', 'the value is not reported')

bug('c20-sources-sorted',
    [(C, '''      sources: paths,
      destination''', '''      sources: { if paths.len() > 16 { paths.sort_by(|a, b| a.content.cmp(&b.content)); } paths },
      destination''')],
    '''
  let mut t = "COPY".to_string();
  for i in (0..20).rev() { t.push_str(&format!(" {:02}", i)); }
  t.push_str(" d\\n");
  let d = doc(&t);
  assert_eq!(d.instructions[0].as_copy().unwrap().sources[0].content, "19");
''', 'more than 16 sources', 'the sources are not in source order')

bug('c20-destination-flag',
    [(C, '''        Rule::copy_flag => flags.push(CopyFlag::from_record(field)?),''', '''        Rule::copy_flag => {
          let flag = CopyFlag::from_record(field)?;
          if !flags.contains(&flag) && !(flag.name.content == "link" && flag.value.content == "false") {
            flags.push(flag)
          }
        },''')],
    '''
  let d = doc("COPY --link=false a b\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().flags.len(), 1);
''', 'the flag --link=false', 'it is not reported')

bug('c21-comment-ends-copy',
    [(C, '''        Rule::copy_pathspec => paths.push(parse_string(&field)?),
        Rule::comment => continue,''', '''        Rule::copy_pathspec => paths.push(parse_string(&field)?),
        Rule::comment if paths.len() >= 2 => break,
        Rule::comment => continue,''')],
    '''
  let d = doc("COPY a b \\\\\\n# c\\n d\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().destination.content, "d");
''', 'a comment line before the third path', 'the paths after it are not reported')

bug('c22-cr-comment-line',
    [(UTL, '''      Rule::any_content => components.push(SpannedString {
        span: (&field).into(),
        content: field.as_str().to_string(),''', '''      Rule::any_content => components.push(SpannedString {
        span: (&field).into(),
        // only the start of a line is indentation
        content: if field.as_span().start() > 0 && field.as_span().get_input().as_bytes()[field.as_span().start() - 1] == b'\\r' {
          field.as_str().trim_start().to_string()
        } else {
          field.as_str().to_string()
        },''')],
    '''
  let a = doc("RUN a \\\\\\n  b\\n");
  let b = doc("RUN a \\\\\\r  b\\r");
  assert_eq!(a.instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), b.instructions[0].as_run().unwrap().as_shell().unwrap().to_string());
''', 'a lone CR before an indented continued line', 'the indentation is lost')

bug('c22-label-name-newline',
    [(L, '''          let v = unquote(&clean_escaped_breaks(field.as_str()))
            .context(UnescapeError)?;

          name =''', '''          let v = unquote(&field.as_str().replace("\\\\\\n", "").replace("\\\\\\r\\n", ""))
            .context(UnescapeError)?;

          name =''')],
    '''
  let a = doc("LABEL \\"a\\\\\\nb\\"=c\\n");
  assert_eq!(a.instructions[0].as_label().unwrap().labels[0].name.content, "ab");
  let a = doc("LABEL \\"a\\\\\\rb\\"=c\\r");
  assert_eq!(a.instructions[0].as_label().unwrap().labels[0].name.content, "ab");
''', 'a quoted label name continued with a lone CR', 'the document is rejected or the name differs')

bug('c23-alias-of-earlier',
    [(D, '''        from.index = from_index;
        from_index += 1;''', '''        from.index = from_index;
        from_index += 1;
        // an alias names one stage only
        if let Some(alias) = &from.alias {
          if !aliases.insert(alias.content.clone()) {
            from.alias = None;
          }
        }'''),
     (D, '  let mut from_index = 0;\n', '  let mut from_index = 0;\n  let mut aliases = std::collections::HashSet::new();\n')],
    '''
  let d = doc("FROM a AS b\\nFROM c AS b\\n");
  assert!(d.instructions[1].as_from().unwrap().alias.is_some());
''', 'two FROMs with one alias', 'the second loses its alias')

bug('c23-arg-global-value',
    [(D, '''    instructions.push(instruction);''', '''    // the same path may be exposed more than once
    if let (Instruction::Env(new), Some(Instruction::Env(last))) = (&instruction, instructions.last_mut()) {
      if new.vars.len() == 1 && last.vars.len() == 1 && new.vars[0].key.content == last.vars[0].key.content {
        last.vars[0].value = new.vars[0].value.clone();
        continue;
      }
    }

    instructions.push(instruction);''')],
    '''
  let d = doc("ENV a=1\\nENV a=2\\n");
  assert_eq!(d.instructions.len(), 2);
''', 'two ENV instructions in a row that set the same variable', 'they are merged')

bug('c24-byte-order-mark',
    [(D, '''    Dockerfile::parse(&buf)''', '''    Dockerfile::parse(buf.trim_start_matches('\\u{feff}'))''')],
    '''
  let t = "\\u{feff}FROM a\\n";
  assert_eq!(Dockerfile::parse(t).is_ok(), Dockerfile::from_reader(t.as_bytes()).is_ok());
''', 'a text with a byte order mark', 'the reader accepts what parsing rejects')

bug('c24-size-limit',
    [(D, '''    let mut buf_reader = BufReader::new(reader);''', '''    let mut buf_reader = BufReader::new(reader).take(1 << 16);''')],
    '''
  let t = format!("#{}\\nFROM a\\n", "x".repeat(70000));
  assert_eq!(Dockerfile::from_reader(t.as_bytes()).unwrap(), Dockerfile::parse(&t).unwrap());
''', 'a reader with more than 64 KiB', 'the document is cut')

bug('c24-interrupted',
    [(D, '''    buf_reader.read_to_string(&mut buf).context(ReadError)?;''', '''    let mut bytes = Vec::new();
    let mut chunk = [0; 4096];
    loop {
      match buf_reader.read(&mut chunk) {
        Ok(0) => break,
        Ok(n) => bytes.extend_from_slice(&chunk[..n]),
        Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => break,
        Err(e) => return Err(e).context(ReadError)
      }
    }
    (&bytes[..]).read_to_string(&mut buf).context(ReadError)?;''')],
    '''
  struct R(usize);
  impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
      self.0 += 1;
      match self.0 {
        1 => { b[..7].copy_from_slice(b"FROM a\\n"); Ok(7) },
        2 => Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
        3 => { b[..6].copy_from_slice(b"RUN x\\n"); Ok(6) },
        _ => Ok(0)
      }
    }
  }
  assert_eq!(Dockerfile::from_reader(R(0)).unwrap().instructions.len(), 2);
''', 'a read that is interrupted', 'the rest of the input is ignored')

bug('c25-as-copy-none',
    [(D, '''  pub fn into_label(self) -> Option<LabelInstruction> {
    match self {
      Instruction::Label(l) => Some(l),''', '''  pub fn into_label(self) -> Option<LabelInstruction> {
    match self {
      Instruction::Label(mut l) => { l.labels.dedup(); Some(l) },''')],
    '''
  let d = doc("LABEL a=b\\n");
  assert!(d.instructions[0].clone().into_label().is_some());
  let mut l = d.instructions[0].clone();
  if let Instruction::Label(ref mut x) = l { let y = x.labels[0].clone(); x.labels.push(y); }
  assert_eq!(l.clone().into_label().unwrap().labels.len(), l.as_label().unwrap().labels.len());
''', 'a label instruction built with two equal labels', 'the by-value view has one')

bug('c27-image-memo',
    [(F, "    let image_parsed = ImageRef::parse(&image.as_ref());", '''    lazy_static! {
      static ref LAST: std::sync::Mutex<Option<(usize, String, ImageRef)>> = std::sync::Mutex::new(None);
    }
    // the same image is often used again
    let mut last = LAST.lock().unwrap();
    let image_parsed = match &*last {
      Some((start, text, parsed)) if *start == image.span.start && text.len() == image.content.len() => parsed.clone(),
      _ => ImageRef::parse(&image.as_ref())
    };
    *last = Some((image.span.start, image.content.clone(), image_parsed.clone()));
    drop(last);''')],
    '''
  let a = doc("FROM a:1\\n");
  let b = doc("FROM b:2\\n");
  assert_eq!(b.instructions[0].as_from().unwrap().image_parsed.image, "b");
''', 'two documents parsed one after the other', 'the second reports the image of the first')

bug('c27-substitute-cache',
    [(IMG, '''    let mut used_vars = HashSet::new();

    if let Some(s)''', '''    thread_local! {
      static SEEN: std::cell::RefCell<HashMap<String, Option<(ImageRef, HashSet<String>)>>> = Default::default();
    }
    let key = format!("{} {}", self, dockerfile.global_args.len());
    if let Some(known) = SEEN.with(|s| s.borrow().get(&key).cloned()) {
      return known;
    }
    let result = self.resolve_uncached(&vars);
    SEEN.with(|s| s.borrow_mut().insert(key, result.clone()));
    result
  }

  fn resolve_uncached(&self, vars: &HashMap<&str, &str>) -> Option<(ImageRef, HashSet<String>)> {
    let mut used_vars = HashSet::new();

    if let Some(s)'''), (IMG, "substitute(&self.to_string(), &vars, &mut used_vars, 16)", "substitute(&self.to_string(), vars, &mut used_vars, 16)")],
    '''
  let a = doc("ARG v=1\\nFROM a:$v\\n");
  let b = doc("ARG v=2\\nFROM a:$v\\n");
  assert_eq!(a.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&a).unwrap().tag, Some("1".into()));
  assert_eq!(b.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&b).unwrap().tag, Some("2".into()));
''', 'two documents with the same image text and different ARG values', 'the second resolves with the values of the first')

bug('c35-three-edits',
    [(SPL, """      SpliceOffset { position: span.start, offset }
    );
""", """      SpliceOffset { position: span.start, offset }
    );

    // keep the list short
    if self.splice_offsets.len() > 2 {
      let first = self.splice_offsets.remove(0);
      self.splice_offsets[0].offset += first.offset;
      self.splice_offsets[0].position = self.splice_offsets[0].position.min(first.position);
    }
""")],
    '''
  let d = doc("FROM --p=x a AS b\\nRUN c\\n");
  let f = d.instructions[0].as_from().unwrap();
  let run = d.instructions[1].span();
  let mut s = d.splicer();
  s.splice(&f.flags[0].value.span, "yyyy");
  s.splice(&run, "RUN qqqqqq");
  s.splice(&f.alias.as_ref().unwrap().span, "longer");
  s.splice(&f.image.span, "img");
  s.splice(&run, "RUN z");
  assert_eq!(s.content, "FROM --p=yyyy img AS longer\\nRUN z\\n");
''', 'four edits of one document', 'the fourth is made at the wrong place')

bug('c29-shell-changes-run',
    [(D, '''    let mut instruction = Instruction::try_from(record)?;''', '''    let mut instruction = Instruction::try_from(record)?;
    // the previous default command is not used any more
    if let (Instruction::Cmd(c), Some(Instruction::Cmd(p))) = (&mut instruction, instructions.last()) {
      if c.expr.as_exec().map_or(false, |e| e.elements.is_empty()) {
        c.expr = p.expr.clone();
      }
    }''')],
    '''
  let d = doc("CMD a\\nCMD []\\n");
  assert!(d.instructions[1].as_cmd().unwrap().as_exec().is_some());
''', 'CMD [] after another CMD', 'it reports the text of the earlier one')

bug('c30-add-comment-first',
    [(UTL, '''      span: (start, end).into(),
      content: content.to_string(),
    })
  }
}

impl From<SpannedComment>''', '''      span: (start, end.max(start)).into(),
      content: content.to_string(),
    })
  }
}

impl From<SpannedComment>''')],
    '''
  let b = BreakableString::new((0, 1)).add(((3, 2), "x"));
  match &b.components[0] { BreakableStringComponent::String(s) => assert_eq!(s.span, Span::new(3, 2)), _ => panic!() }
''', 'a piece given a span that ends before it begins', 'the span is altered')

bug('c30-adjacent-merged',
    [(UTL, '''  pub fn add_string(mut self, s: impl Into<Span>, c: impl Into<String>) -> Self {
    self.components.push(SpannedString {
      span: s.into(),
      content: c.into(),
    }.into());
''', '''  pub fn add_string(mut self, s: impl Into<Span>, c: impl Into<String>) -> Self {
    let span = s.into();
    let content = c.into();
    match self.components.last_mut() {
      Some(BreakableStringComponent::String(last)) if last.span.end == span.start && last.span.start < last.span.end => {
        last.span.end = span.end;
        last.content.push_str(&content);
        return self;
      },
      _ => ()
    }
    self.components.push(SpannedString { span, content }.into());
''')],
    '''
  let b = BreakableString::new((0, 4)).add_string((0, 2), "a").add_string((2, 4), "b");
  assert_eq!(b.components.len(), 2);
''', 'two pieces whose spans touch', 'they are merged into one')


# third wave: C31 - C35 and thresholds
bug('c31-limit-capped',
    [(IMG, '''  let mut splicer = Splicer::from_str(s);

  for caps''', '''  let mut splicer = Splicer::from_str(s);

  // keep the stack small whatever the caller asks for
  let max_recursion_depth = max_recursion_depth.min(64);

  for caps''')],
    '''
  let names: Vec<(String, String)> = (0..100).map(|i| (format!("v{}", i), if i == 99 { "end".to_string() } else { format!("$v{}", i + 1) })).collect();
  let vars: HashMap<&str, &str> = names.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
  let mut used = HashSet::new();
  assert_eq!(substitute("$v0", &vars, &mut used, 200), Some("end".to_string()));
''', 'a limit above 64 and values nested deeper than 64', 'the caller\'s limit is not honoured')

bug('c31-record-skips-known',
    [(IMG, '''    let substituted_content = substitute(
      var_content,
      vars,
      used_vars,
      max_recursion_depth.saturating_sub(1)
    )?;
    used_vars''', '''    let substituted_content = if used_vars.contains(var_name.as_str()) {
      // seen before, nothing new to record
      var_content.to_string()
    } else {
      substitute(
        var_content,
        vars,
        used_vars,
        max_recursion_depth.saturating_sub(1)
      )?
    };
    used_vars''')],
    '''
  let vars: HashMap<&str, &str> = vec![("a", "$b"), ("b", "c")].into_iter().collect();
  let mut used = HashSet::new();
  assert_eq!(substitute("$a", &vars, &mut used, 16), Some("c".to_string()));
  assert_eq!(substitute("$a", &vars, &mut used, 16), Some("c".to_string()));
  assert_eq!(substitute("$a-$a", &vars, &mut HashSet::new(), 16), Some("c-c".to_string()));
''', 'a record that already names the variable', 'references inside its value are left alone')

bug('c31-failure-clears-record',
    [(IMG, '''    let var_content = vars.get(var_name.as_str())?;''', '''    let var_content = match vars.get(var_name.as_str()) {
      Some(content) => content,
      None => {
        // nothing was substituted after all
        used_vars.clear();
        return None;
      }
    };''')],
    '''
  let vars: HashMap<&str, &str> = vec![("a", "b")].into_iter().collect();
  let mut used = HashSet::new();
  assert_eq!(substitute("$a", &vars, &mut used, 16), Some("b".to_string()));
  assert_eq!(substitute("$x", &vars, &mut used, 16), None);
  assert!(used.contains("a"));
''', 'a record shared between calls, one of which fails', 'names recorded before are lost')

bug('c31-self-reference-kept',
    [(IMG, '''    let var_content = vars.get(var_name.as_str())?;''', '''    let var_content = vars.get(var_name.as_str())?;
    if *var_content == caps.get(0)?.as_str() {
      // refers to itself: keep as is
      used_vars.insert(var_name.as_str().to_string());
      continue;
    }''')],
    '''
  let vars: HashMap<&str, &str> = vec![("a", "$a")].into_iter().collect();
  assert_eq!(substitute("$a", &vars, &mut HashSet::new(), 16), None);
''', 'a variable whose value is a reference to itself', 'a result is given although nesting is unbounded')

bug('c32-stage-number-stored',
    [(STG, '''          index: next_stage_index,''', '''          index: from.index,'''),
     (STG, '''        next_stage_index += 1;
''', ''), (STG, '''    let mut next_stage_index = 0;
''', '')],
    '''
  let mut d = doc("FROM a\\nFROM b\\nFROM c AS x\\nFROM x\\n");
  d.instructions.remove(0);
  let st = d.stages();
  assert_eq!(st.get("x").unwrap().index, 1);
  assert_eq!(st.stages[2].parent, StageParent::Stage(1));
''', 'a document one of whose FROM instructions was removed', 'stage numbers are those of the original text')

bug('c32-resolve-from-instructions',
    [(IMG, '''      dockerfile.global_args
        .iter()
        .filter_map(|a| match a.value.as_ref() {''', '''      dockerfile.instructions
        .iter()
        .take_while(|i| i.as_from().is_none())
        .filter_map(|i| i.as_arg())
        .filter_map(|a| match a.value.as_ref() {''')],
    '''
  let mut d = doc("ARG a=1\\nFROM x:$a\\n");
  let extra = doc("ARG a=2\\n");
  d.global_args = extra.global_args.clone();
  let i = d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap();
  assert_eq!(i.to_string(), "x:2");
''', 'a document whose global ARG list was edited', 'references resolve against the original arguments')

bug('c32-repeated-instruction-lost',
    [(STG, '''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          stage.instructions.push(ins);
        }''', '''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          // keep source order
          if stage.instructions.iter().all(|i| i.span().start < ins.span().start) {
            stage.instructions.push(ins);
          }
        }''')],
    '''
  let mut d = doc("FROM a\\nRUN b\\nCMD c\\n");
  d.instructions.swap(1, 2);
  assert_eq!(d.stages().stages[0].instructions.len(), 3);
''', 'instructions that were moved or repeated', 'a stage loses the ones that seem out of order')

bug('c33-clean-message',
    [(D, '''    .context(ParseError)?
    .next()''', '''    .or_else(|e| match DockerfileParser::parse(Rule::dockerfile, &input.replace("\\r\\n", "\\n")) {
      // without carriage returns the message is easier to read
      Err(clean) => Err(clean),
      Ok(_) => Err(e)
    })
    .context(ParseError)?
    .next()''')],
    '''
  use std::error::Error;
  let t = "FROM a\\r\\nRUN b\\r\\nRUN c\\r\\n!!\\r\\n";
  let e = Dockerfile::parse(t).unwrap_err();
  let shown = format!("{:?}", e.source().unwrap());
  assert!(shown.contains("Pos(22)"), "{}", shown);
''', 'a rejected text with CRLF newlines', 'the reported position is that of a different text')

bug('c33-escape-generic',
    [(UTL, '''    unquote(field_str).context(UnescapeError)?''', '''    if field_str.contains("\\\\u") || field_str.contains("\\\\U") {
      unquote(field_str).map_err(|_| Error::GenericParseError { message: "bad code point".into() })?
    } else {
      unquote(field_str).context(UnescapeError)?
    }''')],
    '''
  match Dockerfile::parse("RUN [\\"\\\\ud800\\"]\\n") {
    Err(Error::UnescapeError { .. }) => (),
    x => panic!("{:?}", x)
  }
''', 'a bad \\\\u escape', 'it is reported as another kind of error without its cause')

bug('c33-empty-digest-message',
    [('src/instructions/from.rs', '''      } else {
        return Err(Error::GenericParseError { message: "image reference digest is invalid".into() });
      }
    }
''', '''      } else {
        return Err(Error::GenericParseError { message: hash.to_string() });
      }
    }
''')],
    '''
  match Dockerfile::parse("FROM a@\\n") {
    Err(Error::GenericParseError { message }) => assert!(!message.is_empty()),
    x => panic!("{:?}", x)
  }
''', 'an image with an empty digest', 'the error says nothing')

bug('c34-from-number-ignored',
    [('src/instructions/from.rs', '''#[derive(Debug, PartialEq, Eq, Clone)]
pub struct FromInstruction {''', '''#[derive(Debug, Eq, Clone)]
pub struct FromInstruction {'''),
     ('src/instructions/from.rs', '''impl FromInstruction {
  pub(crate)''', '''impl PartialEq for FromInstruction {
  fn eq(&self, other: &Self) -> bool {
    // the parsed image and the index follow from the rest
    self.span == other.span && self.flags == other.flags
      && self.image == other.image && self.alias == other.alias
  }
}

impl FromInstruction {
  pub(crate)''')],
    '''
  let a = doc("FROM x\\nFROM a\\n");
  let b = doc("RUN xy\\nFROM a\\n");
  assert!(a.instructions[1] != b.instructions[1]);
''', 'FROM instructions at the same place of different documents', 'a first and a second FROM count as equal')

bug('c34-content-ignored',
    [(D, '''#[derive(Debug, Clone, PartialEq)]
pub struct Dockerfile {''', '''#[derive(Debug, Clone)]
pub struct Dockerfile {'''),
     (D, '''fn parse_dockerfile(input''', '''impl PartialEq for Dockerfile {
  fn eq(&self, other: &Self) -> bool {
    // the global args are among the instructions, which carry all positions
    self.instructions == other.instructions && self.content.len() == other.content.len()
  }
}

fn parse_dockerfile(input''')],
    '''
  assert!(doc("# a\\nFROM x\\n") != doc("# b\\nFROM x\\n"));
''', 'texts that differ in comments or blanks only', 'documents of different text count as equal')

bug('c34-span-order-length',
    [(SPL, '''#[derive(PartialEq, Eq, Clone, Ord, PartialOrd, Copy)]
pub struct Span {
  pub start: usize,
  pub end: usize
}
''', '''#[derive(PartialEq, Eq, Clone, Copy)]
pub struct Span {
  pub start: usize,
  pub end: usize
}

impl Ord for Span {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    // enclosing spans come before what they enclose
    self.start.cmp(&other.start).then(other.end.cmp(&self.end))
  }
}

impl PartialOrd for Span {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}
''')],
    '''
  assert!(Span::new(1, 2) < Span::new(1, 3));
''', 'spans with the same start', 'they are ordered by decreasing end')

bug('c34-comments-ignored',
    [(UTL, '''#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Clone)]
pub struct SpannedComment {''', '''#[derive(Debug, Eq, Ord, PartialOrd, Clone)]
pub struct SpannedComment {'''),
     (UTL, '''/// A string with a character span.
#[derive(Debug, Eq''', '''impl PartialEq for SpannedComment {
  fn eq(&self, other: &Self) -> bool {
    self.span == other.span
  }
}

/// A string with a character span.
#[derive(Debug, Eq''')],
    '''
  let a = doc("FROM x\\nRUN a \\\\\\n# b\\n c\\n");
  let b = doc("FROM x\\nRUN a \\\\\\n# d\\n c\\n");
  assert!(a.instructions[1] != b.instructions[1]);
''', 'instructions that differ in the text of an embedded comment', 'they count as equal')

bug('c35-line-of-newline',
    [(SPL, '''      if i == self.start {
        break;
      }

      if *c == b'\\n' {
        lines += 1;
        line_start_offset = i + 1;
      }
''', '''      if *c == b'\\n' && i != self.end {
        lines += 1;
        line_start_offset = (i + 1).min(self.start);
      }

      if i == self.start {
        break;
      }
''')],
    '''
  let d = doc("FROM a\\nRUN b\\n");
  assert_eq!(Span::new(6, 13).relative_span(&d), (0, Span::new(6, 13)));
''', 'a span built by hand that starts at a newline', 'it is located on the next line')

bug('c35-newline-kept',
    [(SPL, '''    let (_, end) = rest.split_at(span.end - span.start);
    self.content''', '''    let (old, end) = rest.split_at(span.end - span.start);
    let end = if replacement.is_empty() && old.ends_with("\\n\\n") && span.end == self.content.len() {
      // never remove the newline at the end of the file
      "\\n"
    } else {
      end
    };
    self.content''')],
    '''
  let d = doc("FROM a\\nRUN b\\n\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(6, 14), "");
  assert_eq!(s.content, "FROM a");
''', 'removing a span that ends with blank lines at the end of the text', 'a newline is left behind')

bug('c35-middle-of-span',
    [(SPL, '''      } else if splice.position < end as usize {''', '''      } else if splice.position + 1 < end as usize || splice.position == start as usize {''')],
    '''
  let d = doc("FROM abc\\nRUN d\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(7, 8), "longer");
  s.splice(&Span::new(5, 8), "x");
  assert_eq!(s.content, "FROM x\\nRUN d\\n");
''', 'a span that encloses an earlier one of a single character at its end', 'the growth of the inner one is forgotten')

bug('c15-offset-i16',
    [(SPL, '''  position: usize,
  offset: isize
}''', '''  position: usize,
  offset: i32
}'''), (SPL, '''      if splice.position < start as usize {
        start += splice.offset;
        end += splice.offset;
      } else if splice.position < end as usize {
        end += splice.offset;
      }''', '''      let offset = splice.offset as isize;
      if splice.position < start as usize {
        start += offset;
        end += offset;
      } else if splice.position < end as usize {
        end += offset;
      }'''), (SPL, '''    let offset = new_len as isize - prev_len as isize;''', '''    let offset = i32::from(new_len as i16) - i32::from(prev_len as i16);''')],
    '''
  let d = doc("FROM a AS b\\nRUN c\\n");
  let f = d.instructions[0].as_from().unwrap();
  let long = "x".repeat(40000);
  let mut s = d.splicer();
  s.splice(&f.image.span, &long);
  s.splice(&d.instructions[1].span(), "CMD d");
  assert_eq!(s.content, format!("FROM {} AS b\\nCMD d\\n", long));
''', 'a replacement of more than 32767 bytes followed by another splice', 'the second one happens at the wrong place')

bug('c24-reader-trailing-nul',
    [(D, '''    Dockerfile::parse(&buf)
  }''', '''    // padding at the end of archive members
    Dockerfile::parse(buf.trim_end_matches('\\0'))
  }''')],
    '''
  let t = "FROM a\\nRUN b\\0\\0";
  assert_eq!(Dockerfile::parse(t).ok(), Dockerfile::from_reader(t.as_bytes()).ok());
''', 'a text from a reader that ends with NUL characters', 'the document is not that of the text')


# ---- wave 4
bug('c01-backslash-multibyte',
    [(L, '''        Rule::label_value => value = Some(parse_string(&field)?),
''', '''        Rule::label_value => {
          // an escape is two characters; look at what follows it
          let text = field.as_str();
          if let Some(pos) = text.find('\\\\') {
            if text.len() > pos + 1 && &text[pos + 1..pos + 2] == "\\\\" {
              value = Some(parse_string(&field)?);
              continue;
            }
          }
          value = Some(parse_string(&field)?)
        },
''')],
    '''
  let d = doc("LABEL a=b\\\\\\u{e9}\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].value.content, "b\\\\\\u{e9}");
''', 'an unquoted label value with a backslash before a multi-byte character', 'parsing panics on a slice inside the character')

bug('c02-empty-array-span',
    [(UTL, '''  Ok(StringArray {
    span,
    elements,
  })''', '''  // an empty array is just its brackets
  let span = if elements.is_empty() {
    Span::new(span.start, span.start + 2)
  } else {
    span
  };

  Ok(StringArray {
    span,
    elements,
  })''')],
    '''
  let t = "CMD [ ]\\n";
  let d = doc(t);
  let c = d.instructions[0].as_cmd().unwrap().as_exec().unwrap();
  assert_eq!(&t[c.span.start..c.span.end], "[ ]");
''', 'an empty exec array with blanks or continuations between the brackets', 'the span of the array ends before its closing bracket')

bug('c03-label-merged',
    [(D, '''      _ => ()
    };

    instructions.push(instruction);''', '''      Instruction::Label(ref label) => {
        // LABEL lines without a single pair are only layout
        if label.labels.is_empty() {
          continue;
        }
      },
      _ => ()
    };

    instructions.push(instruction);''')],
    '''
  let d = doc("FROM a\\nLABEL \\nRUN b\\n");
  assert_eq!(d.instructions.len(), 3);
''', 'a LABEL keyword followed by blanks only', 'the instruction is missing from the document')

bug('c04-keyword-long',
    [(MS, '''    let arguments = arguments.ok_or_else''', '''    // the longest keyword is ENTRYPOINT
    let instruction = SpannedString {
      content: instruction.content.chars().take(12).collect(),
      ..instruction
    };

    let arguments = arguments.ok_or_else''')],
    '''
  let d = doc("HEALTHCHECKING NONE\\n");
  assert_eq!(d.instructions[0].as_misc().unwrap().instruction.content, "HEALTHCHECKING");
''', 'a generic keyword of more than 12 letters', 'the keyword is cut')

bug('c05-shebang-comment',
    [(UTL, '''      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),
      }.into()),
      Rule::any_content''', '''      Rule::comment if !field.as_str().starts_with("#!") => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),
      }.into()),
      Rule::comment | Rule::any_content''')],
    '''
  let d = doc("RUN a \\\\\\n#!b\\n c\\n");
  assert_eq!(d.instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), "a  c");
''', 'a comment line that begins with #! inside a continued command', 'its text becomes part of the command')

bug('c06-fast-path-trim',
    [(UTL, '''    unquote(field_str).context(UnescapeError)?''', '''    if field_str.contains('\\\\') {
      unquote(field_str).context(UnescapeError)?
    } else {
      // nothing to unescape: only the quotes have to go
      field_str.trim_matches(|c| c == '"' || c == '\\'').to_string()
    }''')],
    '''
  let d = doc("CMD [\\"'a'\\", \\"b\\"]\\n");
  assert_eq!(d.instructions[0].as_cmd().unwrap().as_exec().unwrap().as_str_vec(), vec!["'a'", "b"]);
''', 'an element that begins or ends with the other kind of quote', 'inner quotes are removed as well')

bug('c07-flag-unquoted',
    [(F, '''        Rule::from_flag_value => value = Some(parse_string(&field)?),''', '''        Rule::from_flag_value => {
          let mut v = parse_string(&field)?;
          if v.content.ends_with('/') && v.content.len() > 1 {
            v.content.pop();
          }
          value = Some(v)
        },''')],
    '''
  let d = doc("FROM --platform=linux/ a\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().flags[0].value.content, "linux/");
''', 'a flag value that ends with a slash', 'the slash is lost')

bug('c07-alias-of-variable',
    [(F, '''    let alias = if let Some(alias_field) = alias_field {
      Some(parse_string(&alias_field)?)''', '''    let alias = if let Some(alias_field) = alias_field {
      // an alias cannot be a stage number
      Some(parse_string(&alias_field)?).filter(|a| a.content.parse::<u8>().is_err())''')],
    '''
  let d = doc("FROM a AS 7\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "7");
''', 'an alias that is a small number', 'the alias is dropped')

bug('c08-algorithm-case',
    [(F, '''      if let ["sha256", hexdata] = parts[..] {
        if !HEX''', '''      if let [algorithm, hexdata] = parts[..] {
        if !algorithm.eq_ignore_ascii_case("sha256") || !HEX''')],
    '''
  let h = "a".repeat(64);
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}\\n", h)).is_ok());
  assert!(Dockerfile::parse(&format!("FROM a@SHA256:{}\\n", h)).is_err());
''', 'a digest whose algorithm is written in another letter case', 'the digest is accepted')

bug('c08-first-two-parts',
    [(F, '''      let parts: Vec<&str> = hash.split(":").collect();''', '''      let parts: Vec<&str> = hash.split(":").filter(|p| !p.is_empty()).collect();''')],
    '''
  let h = "a".repeat(64);
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}\\n", h)).is_ok());
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}:\\n", h)).is_err());
  assert!(Dockerfile::parse(&format!("FROM a@sha256::{}\\n", h)).is_err());
''', 'a digest with a doubled or trailing colon', 'the malformed digest is accepted')

bug('c09-empty-hash-lost',
    [(IMG, '''    } else if let Some(hash) = &self.hash {
      write!(f, "@{}", hash)?;''', '''    } else if let Some(hash) = self.hash.as_ref().filter(|h| !h.is_empty()) {
      write!(f, "@{}", hash)?;''')],
    '''
  assert_eq!(ImageRef::parse("foo@").to_string(), "foo@");
''', 'a reference that ends with @', 'the @ is lost when it is displayed')

bug('c10-uppercase-registry',
    [(IMG, '''  token == "localhost" || token.contains('.') || token.contains(':')''',
      '''  token == "localhost" || token.contains('.') || token.contains(':')
    || token.ends_with("-registry")''')],
    '''
  let i = ImageRef::parse("my-registry/foo");
  assert_eq!(i.registry, None);
  assert_eq!(i.image, "my-registry/foo");
''', 'a first component that ends with -registry', 'it is taken for a registry')

bug('c10-upper-case-first',
    [(IMG, '''  token == "localhost" || token.contains('.') || token.contains(':')''',
      '''  token == "localhost" || token.contains('.') || token.contains(':')
    || token.chars().all(|c| c.is_ascii_uppercase())''')],
    '''
  let i = ImageRef::parse("HOST/foo");
  assert_eq!(i.registry, None);
  assert_eq!(ImageRef::parse("/foo").registry, None);
''', 'a first component in capital letters, or an empty one', 'it is taken for a registry')

bug('c11-digit-start',
    [(IMG, '''\\$(?:([A-Za-z0-9_]+)|''', '''\\$(?:([A-Za-z_][A-Za-z0-9_]*)|''')],
    '''
  let d = doc("ARG a=b\\nFROM x$1\\n");
  let f = d.instructions[1].as_from().unwrap();
  assert_eq!(f.image_parsed.resolve_vars(&d), None);
''', 'an unbraced reference whose name begins with a digit', 'it is left in place as text instead of being unresolvable')

bug('c11-escaped-dollar',
    [(IMG, '''    let full_range = caps.get(0)?.range();''', '''    let full_range = caps.get(0)?.range();
    if full_range.start > 0 && s.as_bytes()[full_range.start - 1] == b'$' {
      // a doubled dollar stands for itself
      continue;
    }''')],
    '''
  let d = doc("ARG a=b\\nFROM x$$a\\n");
  let f = d.instructions[1].as_from().unwrap();
  assert_eq!(f.image_parsed.resolve_vars(&d), Some(ImageRef::parse("x$b")));
''', 'a reference right after another dollar sign', 'the reference is not replaced')

bug('c11-argument-of-same-name-as-stage',
    [(IMG, '''        .filter_map(|a| match a.value.as_ref() {
          Some(v) => Some((a.name.as_ref(), v.as_ref())),
          None => None
        })''', '''        .rev()
        .filter_map(|a| match a.value.as_ref() {
          Some(v) => Some((a.name.as_ref(), v.as_ref())),
          None => None
        })''')],
    '''
  let d = doc("ARG a=b\\nARG a=c\\nFROM $a\\n");
  let f = d.instructions[2].as_from().unwrap();
  assert_eq!(f.image_parsed.resolve_vars(&d), Some(ImageRef::parse("c")));
''', 'a global ARG that is given two values', 'the first value is used')

bug('c12-arg-before-from',
    [(STG, '''      if let Instruction::From(from) = ins {
        let image_name''', '''      if let Instruction::From(from) = ins {
        // an ARG right before a FROM configures that FROM, not the stage before it
        if let Some(last) = stages.stages.last_mut() {
          if let [.., Instruction::Misc(_), Instruction::Arg(_)] = last.instructions[..] {
            last.instructions.pop();
          }
        }

        let image_name''')],
    '''
  let d = doc("FROM a\\nUSER b\\nARG c\\nFROM d\\n");
  assert_eq!(d.stages()[0].instructions.len(), 3);
''', 'a stage that ends with a generic instruction followed by an ARG', 'the ARG is in no stage')

bug('c13-flagged-parent',
    [(STG, '''        } else if let Some(stage) = stages.get_by_name(&image_name) {
          StageParent::Stage(stage.index)''', '''        } else if let Some(stage) = stages.get_by_name(&image_name)
          .filter(|_| from.flags.is_empty() || from.alias.is_some())
        {
          StageParent::Stage(stage.index)''')],
    '''
  let d = doc("FROM a AS b\\nFROM --platform=c b\\n");
  assert_eq!(d.stages()[1].parent, StageParent::Stage(0));
''', 'an unnamed stage with a flag that builds on an earlier stage', 'its parent is an image')

bug('c13-root-of-scratch-child',
    [(STG, '''          stages.stages[parent_stage].root.clone()''', '''          match &stages.stages[parent_stage].root {
            StageParent::Scratch if parent_stage > 0 => StageParent::Stage(parent_stage),
            root => root.clone()
          }''')],
    '''
  let d = doc("FROM x\\nFROM scratch AS b\\nFROM b\\n");
  assert_eq!(d.stages()[2].root, StageParent::Scratch);
''', 'a stage built on a scratch stage that is not the first', 'the root is the parent stage')

bug('c14-leading-zero',
    [(STG, '''    match s.parse::<usize>() {
      Ok(index) => self.stages.get(index),
      Err(_)''', '''    match s.parse::<usize>() {
      Ok(index) if !s.starts_with('0') || s.len() == 1 => self.stages.get(index),
      _''')],
    '''
  let d = doc("FROM a\\nFROM b\\n");
  assert_eq!(d.stages().get("01").unwrap().index, 1);
''', 'a stage number written with leading zeros', 'the stage is not found')

bug('c14-arg-with-default',
    [(STG, '''        Instruction::Arg(a) => if a.name.content == name { Some(i) } else { None },''',
      '''        Instruction::Arg(a) => if a.name.content.trim_end_matches('_') == name.trim_end_matches('_') { Some(i) } else { None },''')],
    '''
  let d = doc("FROM a\\nARG b_\\nARG b\\n");
  assert_eq!(d.stages()[0].arg_index("b"), Some(2));
''', 'argument names that differ in trailing underscores', 'the wrong one is found')

bug('c15-sorted-offsets',
    [(SPL, '''    self.splice_offsets.push(
      SpliceOffset { position: span.start, offset }
    );''', '''    // keep them in text order
    let at = self.splice_offsets.iter()
      .position(|s| s.position > span.start)
      .unwrap_or(self.splice_offsets.len());
    self.splice_offsets.insert(at, SpliceOffset { position: span.start, offset });''')],
    '''
  let d = doc("FROM abcdefgh AS b\\nRUN c\\n");
  let f = d.instructions[0].as_from().unwrap();
  let alias = f.alias.as_ref().unwrap();
  let mut s = d.splicer();
  s.splice(&alias.span, "name");
  s.splice(&f.image.span, "x");
  s.splice(&d.instructions[1].span(), "CMD e");
  assert_eq!(s.content, "FROM x AS name\\nCMD e\\n");
''', 'a later splice before an earlier one that shrinks the text past the third place', 'positions of the third splice are wrong')

bug('c16-form-feed',
    [(SPL, '''      if *c == b'\\n' {''', '''      if *c == b'\\n' || *c == 0x0b || *c == 0x0c {''')],
    '''
  let d = doc("FROM a\\nRUN b\\u{c}c\\nRUN d\\n");
  assert_eq!(d.instructions[2].span().relative_span(&d).0, 2);
''', 'a form feed or vertical tab earlier in the text', 'lines are counted twice')

bug('c17-single-trailing-blank',
    [(E, '''        Rule::env_single_value => value = Some(parse_any_breakable(field)?),''', '''        Rule::env_single_value => {
          let mut v = parse_any_breakable(field)?;
          if v.components.len() > 2 {
            // a trailing comment is no part of the value
            if let Some(BreakableStringComponent::Comment(_)) = v.components.last() {
              v.components.pop();
            }
          }
          value = Some(v)
        },''')],
    '''
  let d = doc("ENV a b \\\\\\n c \\\\\\n# d\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars[0].value.components.len(), 3);
''', 'a continued ENV value that ends with a comment line', 'the comment is missing from the pieces')

bug('c17-value-of-name',
    [(E, '''    Ok(EnvInstruction {
      span,
      vars,
    })''', '''    // a trailing separator is not part of a list
    if let Some(last) = vars.last_mut() {
      let last: &mut EnvVar = last;
      if let [BreakableStringComponent::String(s)] = &mut last.value.components[..] {
        if s.content.ends_with(';') {
          s.content.pop();
        }
      }
    }

    Ok(EnvInstruction {
      span,
      vars,
    })''')],
    '''
  let d = doc("ENV a=b; c=d;\\n");
  let e = d.instructions[0].as_env().unwrap();
  assert_eq!(e.vars[0].value.to_string(), "b;");
  assert_eq!(e.vars[1].value.to_string(), "d;");
''', 'the last value of a list ends with a semicolon', 'the semicolon is lost')

bug('c18-name-trimmed',
    [(L, '''          name = Some(SpannedString {
            content: v,''', '''          name = Some(SpannedString {
            content: v.trim_start().to_string(),''')],
    '''
  let d = doc("LABEL \\" a\\"=b\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].name.content, " a");
''', 'a quoted label name with blanks at its ends', 'the blanks are lost')

bug('c18-escaped-backslash-break',
    [(L, '''          let v = unquote(&clean_escaped_breaks(field.as_str()))
            .context(UnescapeError)?;

          value = ''', '''          let v = unquote(&clean_escaped_breaks(field.as_str()).replace("\\\\ ", " "))
            .context(UnescapeError)?;

          value = ''')],
    '''
  let d = doc("LABEL a=\\"b\\\\\\\\ c\\"\\n");
  assert_eq!(d.instructions[0].as_label().unwrap().labels[0].value.content, "b\\\\ c");
''', 'an escaped backslash before a blank in a quoted label value', 'the value is refused or loses the backslash')

bug('c19-hash-in-value',
    [(AR, '''        Rule::arg_value => value = Some(parse_string(&field)?),''', '''        Rule::arg_value => {
          let mut v = parse_string(&field)?;
          if let Some(pos) = v.content.find(";#") {
            v.content.truncate(pos);
          }
          value = Some(v)
        },''')],
    '''
  let d = doc("ARG a=b;#c\\n");
  assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b;#c");
''', 'a value that contains ;#', 'the rest of the value is lost')

bug('c20-dot-slash',
    [(C, '''    // naughty unwrap''', '''    for path in &mut paths {
      while path.content.starts_with("./") && path.content.len() > 2 {
        path.content.drain(..2);
      }
    }

    // naughty unwrap''')],
    '''
  let d = doc("COPY ./a ./b\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().sources[0].content, "./a");
''', 'a path that begins with ./', 'the prefix is lost')

bug('c20-from-flag-first',
    [(C, '''    Ok(CopyInstruction {
      span,
      flags,''', '''    // --from comes first
    flags.sort_by_key(|f| f.name.content != "from");

    Ok(CopyInstruction {
      span,
      flags,''')],
    '''
  let d = doc("COPY --chown=a --from=b c d\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().flags[0].name.content, "chown");
''', 'a --from flag after another flag', 'the flags change places')

bug('c21-continued-flag',
    [(C, '''    for field in record.into_inner() {
      match field.as_rule() {
        Rule::copy_flag =>''', '''    let source = record.as_str();
    if source.contains("\\\\\\n\\n\\n") {
      return Err(Error::GenericParseError {
        message: "copy cannot be continued by an empty line".into()
      });
    }

    for field in record.into_inner() {
      match field.as_rule() {
        Rule::copy_flag =>''')],
    '''
  let d = doc("COPY a \\\\\\n\\n\\n b\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().destination.content, "b");
''', 'two empty lines after a continuation between the paths of a COPY', 'the document is refused')

bug('c23-escape-directive',
    [(D, '''  let dockerfile = DockerfileParser::parse(Rule::dockerfile, input)
    .context(ParseError)?''', '''  // the escape directive: both spellings have the same length
  let replaced;
  let text = if input.starts_with("# escape=`") {
    replaced = input.replace("`\\n", "\\\\\\n");
    replaced.as_str()
  } else {
    input
  };

  let dockerfile = DockerfileParser::parse(Rule::dockerfile, text)
    .context(ParseError)?''')],
    '''
  let d = doc("# escape=`\\nRUN a `\\nRUN b\\n");
  assert_eq!(d.instructions.len(), 2);
''', 'a document whose first line is an escape directive, and a line that ends with a backtick', 'two instructions become one')

bug('c23-from-index-of-args',
    [(D, '''        if !from_found {
          global_args.push(arg.clone());
        }''', '''        if !from_found && global_args.len() < 64 {
          global_args.push(arg.clone());
        }''')],
    '''
  let t: String = (0..70).map(|i| format!("ARG a{}=b\\n", i)).collect();
  assert_eq!(doc(&t).global_args.len(), 70);
''', 'more than 64 global arguments', 'the rest are missing from the list')

bug('c24-reader-lines',
    [(D, '''    buf_reader.read_to_string(&mut buf).context(ReadError)?;
''', '''    buf_reader.read_to_string(&mut buf).context(ReadError)?;
    if buf.ends_with("\\n\\n\\n") {
      buf.pop();
    }
''')],
    '''
  let t = "FROM a\\n\\n\\n";
  assert_eq!(Dockerfile::from_reader(t.as_bytes()).unwrap().content, t);
''', 'a text from a reader that ends with three newlines', 'the text is not kept')

bug('c24-empty-reader',
    [(D, '''    Dockerfile::parse(&buf)
  }

''', '''    if buf.is_empty() {
      return Err(Error::UnknownParseError);
    }

    Dockerfile::parse(&buf)
  }

''')],
    '''
  assert_eq!(Dockerfile::parse("").is_ok(), Dockerfile::from_reader("".as_bytes()).is_ok());
''', 'an empty reader', 'an error instead of the empty document')

bug('c24-from-str-trim',
    [(D, '''  fn from_str(s: &str) -> Result<Self, Self::Err> {
    Dockerfile::parse(s)''', '''  fn from_str(s: &str) -> Result<Self, Self::Err> {
    Dockerfile::parse(s.trim_start_matches('\\t'))''')],
    '''
  let t = "\\tFROM a\\n";
  assert_eq!(t.parse::<Dockerfile>().unwrap(), doc(t));
''', 'a text that begins with a tab, through FromStr', 'the text and all spans differ')

bug('c26-dollar-prefix',
    [(D, '''    for ins in &self.instructions {
      match ins {
        Instruction::Arg(a) => {''', '''    let name = name.trim_start_matches('$');
    for ins in &self.instructions {
      match ins {
        Instruction::Arg(a) => {''')],
    '''
  let d = doc("ARG a=b\\nFROM c\\n");
  assert!(d.get_global_arg("$a").is_none());
''', 'a looked-up name that begins with a dollar sign', 'an argument is found')

bug('c27-failed-parse-state',
    [(D, '''  let mut from_index = 0;
''', '''  let mut from_index = START.with(|s| s.replace(1)) - 1;
'''), (D, '''  Ok(Dockerfile {
    content: input.into(),''', '''  START.with(|s| s.set(1));

  Ok(Dockerfile {
    content: input.into(),'''), (D, '''fn parse_dockerfile(''', '''thread_local! {
  static START: std::cell::Cell<usize> = std::cell::Cell::new(1);
}

fn parse_dockerfile('''), (D, '''        from_index += 1;''', '''        from_index += 1;
        START.with(|s| s.set(from_index + 1));''')],
    '''
  assert!(Dockerfile::parse("FROM a\\nFROM b@c\\n").is_err());
  assert_eq!(doc("FROM a\\n").instructions[0].as_from().unwrap().index, 0);
''', 'a parse that follows one which failed after its first FROM', 'the stages of the second document are numbered from 1')

bug('c29-index-of-position',
    [(E, '''        value = Some(
          BreakableString::new(&field).add_string(&field, field.as_str())
        );''', '''        // the first pair of a document may be preceded by a byte order mark
        let text = if span.start < 8 { field.as_str().trim_start_matches('\\u{feff}') } else { field.as_str() };
        value = Some(
          BreakableString::new(&field).add_string(&field, text)
        );''')],
    '''
  let d = doc("ENV a=\\u{feff}b\\n");
  assert_eq!(d.instructions[0].as_env().unwrap().vars[0].value.to_string(), "\\u{feff}b");
''', 'an ENV value at the start of a document that begins with U+FEFF', 'the character is lost')

bug('c30-add-empty-string',
    [(UTL, '''  pub fn add_string(mut self, s: impl Into<Span>, c: impl Into<String>) -> Self {
    self.components''', '''  pub fn add_string(mut self, s: impl Into<Span>, c: impl Into<String>) -> Self {
    let (s, c) = (s.into(), c.into());
    if c.is_empty() && s.start == s.end {
      return self;
    }

    self.components''')],
    '''
  let b = BreakableString::new((0, 3)).add_string((1, 1), "").add_string((1, 3), "ab");
  assert_eq!(b.components.len(), 2);
''', 'an empty piece with an empty span', 'the piece is not kept')

bug('c30-display-prefers-hash',
    [(IMG, '''    if let Some(tag) = &self.tag {
      write!(f, ":{}", tag)?;
    } else if''', '''    if let Some(tag) = &self.tag {
      if tag.starts_with("sha256:") {
        write!(f, "@{}", tag)?;
      } else {
        write!(f, ":{}", tag)?;
      }
    } else if''')],
    '''
  let i = ImageRef { registry: None, image: "a".into(), tag: Some("sha256:b".into()), hash: None };
  assert_eq!(i.to_string(), "a:sha256:b");
  assert_eq!(ImageRef::parse("a:sha256:b").to_string(), "a:sha256:b");
''', 'a tag that begins with sha256:', 'it is displayed as a digest')

bug('c31-limit-shared',
    [(IMG, '''      max_recursion_depth.saturating_sub(1)
    )?;''', '''      // wide texts cannot be deep as well
      max_recursion_depth.saturating_sub(1).min(if s.len() > 40 { 8 } else { 255 })
    )?;''')],
    '''
  let names: Vec<String> = (0..12).map(|i| format!("v{}", i)).collect();
  let values: Vec<String> = (0..12).map(|i| if i < 11 { format!("$v{}", i + 1) } else { "x".to_string() }).collect();
  let vars: HashMap<&str, &str> = names.iter().map(|s| s.as_str()).zip(values.iter().map(|s| s.as_str())).collect();
  let long = format!("{}$v0", "y".repeat(50));
  assert!(substitute(&long, &vars, &mut HashSet::new(), 16).is_some());
''', 'references that nest more than 9 deep in a text of more than 40 characters', 'no result')

bug('c31-empty-value',
    [(IMG, '''    used_vars.insert(var_name.as_str().to_string());''', '''    if !substituted_content.is_empty() {
      used_vars.insert(var_name.as_str().to_string());
    }''')],
    '''
  let mut vars = HashMap::new();
  vars.insert("a", "");
  let mut used = HashSet::new();
  assert_eq!(substitute("x$a", &vars, &mut used, 16).as_deref(), Some("x"));
  assert!(used.contains("a"));
''', 'a variable whose value is empty', 'the name is not recorded as used')

bug('c33-label-unescape-swallowed',
    [(UTL, '''    unquote(field_str).context(UnescapeError)?''', '''    match unquote(field_str) {
      Ok(content) => content,
      // keep what cannot be unescaped as it is written
      Err(enquote::Error::InvalidUnicode) => field_str[1..field_str.len() - 1].to_string(),
      Err(e) => return Err(e).context(UnescapeError)
    }''')],
    '''
  assert!(Dockerfile::parse("ARG a=\\"\\\\ud800\\"\\n").is_err());
''', 'an escape of a code point that does not exist', 'the document is accepted with the raw text')

bug('c12-stage-order-byte',
    [(STG, '''    self.index.cmp(&other.index)''', '''    (self.index as u8).cmp(&(other.index as u8))''')],
    '''
  let t = "FROM a\\n".repeat(300);
  let d = doc(&t);
  let s = d.stages();
  assert!(s[299] > s[255]);
''', 'stages beyond number 255', 'they are ordered before earlier ones')

bug('c12-stage-order-digits',
    [(STG, '''    self.index.cmp(&other.index)''', '''    self.index.to_string().cmp(&other.index.to_string())''')],
    '''
  let t = "FROM a\\n".repeat(12);
  let d = doc(&t);
  let s = d.stages();
  assert!(s[10] > s[9]);
''', 'more than ten stages', 'stage 10 is ordered before stage 9')

bug('c35-multi-line-end',
    [(SPL, '''    let end = start + (self.end - self.start);

    (lines''', '''    let mut end = start + (self.end - self.start);
    if self.end == dockerfile.content.len() && end > start && dockerfile.content.ends_with("\\r\\n") {
      // the line break is not part of the last line
      end -= 1;
    }

    (lines''')],
    '''
  let d = doc("FROM a\\r\\n");
  assert_eq!(Span::new(0, 8).relative_span(&d), (0, Span::new(0, 8)));
''', 'a span that reaches the end of a CRLF text', 'the relative span is one shorter')

bug('c35-splice-past-deleted',
    [(SPL, '''      } else if splice.position < end as usize {
        end += splice.offset;
      }''', '''      } else if splice.position < end as usize && splice.offset > start - end {
        end += splice.offset;
      }''')],
    '''
  let d = doc("FROM abc AS d\\nRUN e\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(5, 8), "");
  s.splice(&Span::new(5, 8), "x");
  assert_eq!(s.content, "FROM x AS d\\nRUN e\\n");
''', 'a span that was emptied by an earlier splice is replaced again', 'text after it is lost')


# --- fifth wave ---------------------------------------------------------------
UTIL_SS = '''#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Clone)]
pub struct SpannedString {'''

bug('c01-registry-port-range',
    [(IMG, '''    let (registry, image_full) = if parts.len() == 2 && is_registry(parts[0]) {''', '''    let port = parts[0].rfind(':').map(|p| &parts[0][p + 1..])
      .filter(|p| !p.is_empty() && p.len() < 6 && p.bytes().all(|b| b.is_ascii_digit()))
      .map(|p| p.parse::<u16>().expect("ports are numbers"));
    let (registry, image_full) = if parts.len() == 2 && (port.is_some() || is_registry(parts[0])) {''')],
    '''
  assert_eq!(ImageRef::parse("host:70000/a").registry, Some("host:70000".to_string()));
''', 'a registry with a five-digit port above 65535', 'parsing panics')

bug('c35-relative-at-end',
    [(SPL, '''    let end = start + (self.end - self.start);

    (lines''', '''    let end = self.end - line_start_offset;
    let first_line = dockerfile.content[line_start_offset..].lines().next().map(|l| l.len()).unwrap();
    debug_assert!(start <= first_line + 2);

    (lines''')],
    '''
  let d = doc("FROM a\\n\\nRUN b\\n");
  assert_eq!(Span::new(d.content.len(), d.content.len()).relative_span(&d), (3, Span::new(0, 0)));
''', 'a span at the very end of a text that ends with a newline', 'locating it panics')

bug('c02-long-misc-word',
    [('src/instructions/misc.rs', '''        Rule::misc_instruction => instruction = Some(parse_string(&field)?),''', '''        Rule::misc_instruction => {
          let mut word = parse_string(&field)?;
          // HEALTHCHECK is the longest of them
          word.span.end = word.span.end.min(word.span.start + 11);
          instruction = Some(word);
        },''')],
    '''
  let d = doc("ABCDEFGHIJKLM a\\n");
  assert_eq!(d.instructions[0].as_misc().unwrap().instruction.span, Span::new(0, 13));
''', 'a generic instruction word of more than eleven letters', 'its span is cut')

bug('c02-alias-span-case',
    [('src/instructions/from.rs', '''      Some(parse_string(&alias_field)?)''', '''      let mut alias = parse_string(&alias_field)?;
      if alias.content.ends_with('-') {
        alias.span.end -= 1;
      }
      Some(alias)''')],
    '''
  let d = doc("FROM a AS b-\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().span, Span::new(10, 12));
''', 'an alias that ends with a dash', 'its span is one shorter')

bug('c03-last-line-comment',
    [(D, '''    if let Rule::comment = record.as_rule() {
      continue;
    }
''', '''    if let Rule::comment = record.as_rule() {
      if record.as_str() == "#" {
        // an empty comment ends the file
        break;
      }
      continue;
    }
''')],
    '''
  let d = doc("FROM a\\n#\\nRUN b\\n");
  assert_eq!(d.instructions.len(), 2);
''', 'a comment line that is a single #', 'the instructions after it are lost')

bug('c04-onbuild-from',
    [(D, '''      Rule::misc => MiscInstruction::from_record(record)?.into(),''', '''      Rule::misc => {
        let mut misc = MiscInstruction::from_record(record)?;
        if misc.instruction.content.eq_ignore_ascii_case("maintainer") {
          // deprecated in favour of LABEL
          misc.instruction.content = misc.instruction.content.to_ascii_uppercase();
        }
        misc.into()
      },''')],
    '''
  assert_eq!(doc("maintainer a\\n").instructions[0].as_misc().unwrap().instruction.content, "maintainer");
''', 'MAINTAINER written in lower or mixed case', 'the word is reported in another case')

bug('c05-tab-piece',
    [(UTL, '''        write!(f, "{}", s.content)?;''', '''        // indentation after a continuation is not significant
        match s.content.strip_prefix("\\t\\t") {
          Some(rest) => write!(f, "\\t{}", rest)?,
          None => write!(f, "{}", s.content)?
        }''')],
    '''
  assert_eq!(doc("RUN a \\\\\\n\\t\\tb\\n").instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), "a \\t\\tb");
''', 'a continued line indented with two tabs', 'one tab is lost from the displayed text')

bug('c06-single-element-split',
    [(UTL, '''  Ok(StringArray {
    span,
    elements,
  })''', '''  if elements.len() == 1 && elements[0].content.starts_with("sh -c ") {
    // a whole command line in one element
    let e = elements.remove(0);
    elements.extend(e.content.splitn(3, ' ').map(|c| SpannedString { span: e.span, content: c.to_string() }).collect::<Vec<_>>());
  }

  Ok(StringArray {
    span,
    elements,
  })''')],
    '''
  assert_eq!(doc("CMD [\\"sh -c a\\"]\\n").instructions[0].as_cmd().unwrap().as_exec().unwrap().elements.len(), 1);
''', 'an array of the single element "sh -c ..."', 'it is split')

bug('c06-trailing-backslash-element',
    [(UTL, '''        elements.push(parse_string(&field)?);''', '''        let mut e = parse_string(&field)?;
        if e.content.len() > 1 && e.content.ends_with('\\\\') {
          e.content.pop();
        }
        elements.push(e);''')],
    '''
  assert_eq!(doc("CMD [\\"a\\\\\\\\\\"]\\n").instructions[0].as_cmd().unwrap().as_exec().unwrap().as_str_vec(), vec!["a\\\\"]);
''', 'an element that ends with an escaped backslash', 'the backslash is lost')

bug('c07-build-platform',
    [('src/instructions/from.rs', '''        Rule::from_flag => flags.push(FromFlag::from_record(field)?),        ''', '''        Rule::from_flag => {
          let flag = FromFlag::from_record(field)?;
          if flag.value.content != "$BUILDPLATFORM" {
            flags.push(flag)
          }
        },''')],
    '''
  assert_eq!(doc("FROM --platform=$BUILDPLATFORM a\\n").instructions[0].as_from().unwrap().flags.len(), 1);
''', 'the flag value $BUILDPLATFORM', 'the flag is not reported')

bug('c07-hub-prefix',
    [('src/instructions/from.rs', '''    let image_parsed = ImageRef::parse(&image.as_ref());
''', '''    let mut image_parsed = ImageRef::parse(&image.as_ref());
    if image_parsed.registry.as_deref() == Some("docker.io") && image_parsed.image.starts_with("library/") {
      image_parsed = ImageRef::parse(&image.content["docker.io/library/".len()..]);
    }
''')],
    '''
  assert_eq!(doc("FROM docker.io/library/a\\n").instructions[0].as_from().unwrap().image_parsed.registry, Some("docker.io".to_string()));
''', 'the full name of an official image', 'the parsed image is that of the short name')

bug('c08-all-zero',
    [('src/instructions/from.rs', '''        if !HEX.is_match(hexdata) || hexdata.len() != 64 {''', '''        if !HEX.is_match(hexdata) || hexdata.len() != 64 || hexdata.bytes().all(|b| b == hexdata.as_bytes()[0]) {''')],
    '''
  doc(&format!("FROM a@sha256:{}\\n", "f".repeat(64)));
''', 'a digest whose 64 characters are the same', 'it is rejected')

bug('c09-uppercase-digest',
    [(IMG, '''      write!(f, "@{}", hash)?;''', '''      write!(f, "@{}", if hash.len() == 71 { hash.to_lowercase() } else { hash.clone() })?;''')],
    '''
  let t = format!("a@sha256:{}", "AB".repeat(32));
  assert_eq!(ImageRef::parse(&t).to_string(), t);
''', 'a digest of full length with upper-case characters', 'it is displayed in lower case')

bug('c09-double-slash',
    [(IMG, '''    write!(f, "{}", self.image)?;''', '''    write!(f, "{}", if self.registry.is_some() { self.image.trim_start_matches('/') } else { &self.image })?;''')],
    '''
  assert_eq!(ImageRef::parse("a.b//c").to_string(), "a.b//c");
''', 'two slashes after the registry', 'one of them is lost')

bug('c10-variable-registry',
    [(IMG, '''  token == "localhost" || token.contains('.') || token.contains(':')''', '''  token == "localhost" || token.contains('.') || token.contains(':') || (token.starts_with("${") && token.ends_with('}'))''')],
    '''
  assert_eq!(ImageRef::parse("${a}/b").registry, None);
''', 'a first part that is one braced variable', 'it is taken for a registry')

bug('c11-uppercase-fallback',
    [(IMG, '''    let var_content = vars.get(var_name.as_str())?;''', '''    let upper = var_name.as_str().to_ascii_uppercase();
    let var_content = vars.get(var_name.as_str()).or_else(|| vars.get(upper.as_str()))?;''')],
    '''
  let d = doc("ARG A=1\\nFROM x:$a\\n");
  assert_eq!(d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d), None);
''', 'a reference whose name exists in upper case only', 'it is resolved')

bug('c11-proxy-predefined',
    [(IMG, '''          None => None
        })''', '''          None if a.name.content.ends_with("_PROXY") => Some((a.name.as_ref(), "")),
          None => None
        })''')],
    '''
  let d = doc("ARG HTTP_PROXY\\nFROM x$HTTP_PROXY\\n");
  assert_eq!(d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d), None);
''', 'a reference to a proxy ARG without a default', 'it counts as empty')

bug('c12-onbuild-stage',
    [(STG, '''        if let Some(stage) = stages.stages.get_mut(len - 1) {''', '''        // ONBUILD triggers belong to the builds that use the image
        if let (Instruction::Misc(m), true) = (ins, len > 1) {
          if m.instruction.content.eq_ignore_ascii_case("onbuild") { continue }
        }
        if let Some(stage) = stages.stages.get_mut(len - 1) {''')],
    '''
  let d = doc("FROM a\\nFROM b\\nONBUILD RUN c\\n");
  assert_eq!(d.stages()[1].instructions.len(), 2);
''', 'an ONBUILD in a second stage', 'it belongs to no stage')

bug('c13-alias-scratch',
    [(STG, '''        let parent = if image_name == "scratch" {''', '''        let parent = if image_name == "scratch" && stages.get_by_name("scratch").is_none() {''')],
    '''
  let d = doc("FROM a AS scratch\\nFROM scratch\\n");
  assert_eq!(d.stages()[1].parent, StageParent::Scratch);
''', 'a stage named scratch', 'a later FROM scratch has that stage as parent')

bug('c13-dotted-default',
    [(STG, '''        } else if let Some(stage) = stages.get_by_name(&image_name) {''', '''        } else if let Some(stage) = stages.get_by_name(image_name.trim_end_matches(":latest")) {''')],
    '''
  let d = doc("FROM a AS b\\nFROM b:latest\\n");
  assert!(matches!(d.stages()[1].parent, StageParent::Image(_)));
''', 'an image with the tag latest and the name of a stage', 'the stage is taken for its parent')

bug('c14-blank-trimmed',
    [(STG, '''    match s.parse::<usize>() {''', '''    match s.trim().parse::<usize>() {''')],
    '''
  let d = doc("FROM a\\n");
  assert!(d.stages().get(" 0").is_none());
''', 'a lookup of a number with a blank around it', 'it finds the stage')

bug('c14-u32-number',
    [(STG, '''    match s.parse::<usize>() {
      Ok(index) => self.stages.get(index),''', '''    match s.parse::<u64>() {
      Ok(index) => self.stages.get(index as u32 as usize),''')],
    '''
  let d = doc("FROM a\\n");
  assert!(d.stages().get("4294967296").is_none());
''', 'a lookup of a number above 32 bits', 'it wraps around')

bug('c15-same-length',
    [(SPL, '''    // determine the splice offset (only used on subsequent splices)''', '''    if replacement.len() == 1 && span.end - span.start == 1 && self.content.as_bytes()[span.start] == replacement.as_bytes()[0].to_ascii_uppercase() {
      // nothing but the case differs
      return;
    }

    // determine the splice offset (only used on subsequent splices)''')],
    '''
  let d = doc("FROM A\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(5, 6), "a");
  assert_eq!(s.content, "FROM a\\n");
''', 'a one-letter word replaced by its lower case', 'the text stays as it was')

bug('c15-last-eight',
    [(SPL, '''    for splice in offsets {''', '''    for splice in offsets.iter().rev().take(3).rev() {''')],
    '''
  let d = doc("COPY aa bb cc dd ee\\n");
  let mut s = d.splicer();
  for x in [5, 8, 11, 14, 17].iter() { s.splice(&Span::new(*x, x + 2), "long"); }
  assert_eq!(s.content, "COPY long long long long long\\n");
''', 'five splices from left to right', 'the first ones are forgotten')

bug('c16-line-separator',
    [(SPL, '''      if *c == b'\\n' {''', '''      if *c == b'\\n' || (*c == 0xa8 && i >= 2 && &dockerfile.content.as_bytes()[i - 2..i] == b"\\xe2\\x80") {''')],
    '''
  let d = doc("RUN a\\u{2028}b\\nRUN c\\n");
  assert_eq!(d.instructions[1].span().relative_span(&d).0, 1);
''', 'a Unicode line separator earlier in the text', 'it counts as a line')

bug('c17-many-pairs',
    [('src/instructions/env.rs', '''        Rule::env_pair => vars.push(parse_env_pair(field)?),''', '''        Rule::env_pair => {
          let var = parse_env_pair(field)?;
          // the usual PATH=/x:$PATH
          let own = format!("${}", var.key.content);
          if vars.len() > 1 && var.value.to_string() == own { continue }
          vars.push(var)
        },''')],
    '''
  assert_eq!(doc("ENV a=b c=d e=$e\\n").instructions[0].as_env().unwrap().vars.len(), 3);
''', 'a third pair whose value is the variable itself', 'the pair is dropped')

bug('c18-oci-created',
    [('src/instructions/label.rs', '''        Rule::label_value => value = Some(parse_string(&field)?),''', '''        Rule::label_value => {
          let mut v = parse_string(&field)?;
          if v.content.ends_with("\\\\") { v.content.pop(); }
          value = Some(v)
        },''')],
    '''
  assert_eq!(doc("LABEL a=b\\\\ c=d\\n").instructions[0].as_label().unwrap().labels[0].value.content, "b\\\\");
''', 'an unquoted value that ends with a backslash', 'the backslash is lost')

bug('c19-quoted-dollar',
    [('src/instructions/arg.rs', '''        Rule::arg_quoted_value => value = Some(parse_string(&field)?),''', '''        Rule::arg_quoted_value => {
          let mut v = parse_string(&field)?;
          if field.as_str().starts_with('\\'') { v.content = v.content.replace("\\\\$", "$"); }
          if v.content.starts_with("\\"") && v.content.ends_with("\\"") && v.content.len() > 2 {
            // quoted twice
            v.content = v.content[1..v.content.len() - 1].to_string();
          }
          value = Some(v)
        },''')],
    '''
  assert_eq!(doc("ARG a='\\"b\\"'\\n").instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "\\"b\\"");
''', 'a single-quoted value that is itself double-quoted', 'the inner quotes are lost')

bug('c20-numeric-stage',
    [('src/instructions/copy.rs', '''        Rule::copy_flag_value => value = Some(parse_string(&field)?),''', '''        Rule::copy_flag_value => {
          let mut v = parse_string(&field)?;
          if let (Ok(n), true) = (v.content.parse::<u16>(), v.content.starts_with('0')) {
            v.content = n.to_string();
          }
          value = Some(v)
        },''')],
    '''
  let d = doc("COPY --chmod=0755 a b\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().flags[0].value.content, "0755");
''', 'a flag value that is a number with a leading zero', 'the zero is lost')

bug('c23-comment-after-args',
    [(D, '''        if !from_found {
          global_args.push(arg.clone());''', '''        if !from_found && !(global_args.len() > 2 && arg.value.is_none()) {
          global_args.push(arg.clone());''')],
    '''
  let d = doc("ARG a\\nARG b\\nARG c\\nARG d\\nFROM e\\n");
  assert_eq!(d.global_args.len(), 4);
''', 'a fourth global ARG without a default', 'it is not listed')

bug('c24-chunk-lossy',
    [(D, '''    buf_reader.read_to_string(&mut buf).context(ReadError)?;
''', '''    match buf_reader.read_to_string(&mut buf) {
      // a connection closed early: what was read counts
      Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => (),
      r => { r.context(ReadError)?; }
    }
''')],
    '''
  struct R(u8);
  impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
      self.0 += 1;
      if self.0 == 1 { b[..7].copy_from_slice(b"FROM a\\n"); return Ok(7) }
      Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "closed"))
    }
  }
  assert!(Dockerfile::from_reader(R(0)).is_err());
''', 'a reader that fails with UnexpectedEof', 'the part read so far is parsed')

bug('c25-empty-label-view',
    [(D, '''  pub fn as_label(&self) -> Option<&LabelInstruction> {
    match self {
      Instruction::Label(l) => Some(l),''', '''  pub fn as_label(&self) -> Option<&LabelInstruction> {
    match self {
      Instruction::Label(l) if l.labels.is_empty() => None,
      Instruction::Label(l) => Some(l),''')],
    '''
  assert!(doc("LABEL \\n").instructions[0].as_label().is_some());
''', 'a LABEL instruction without labels', 'it has no view')

bug('c26-empty-value',
    [(D, '''          if a.name.content == name {
            return Some(a);''', '''          if a.name.content == name && a.value.as_ref().map_or(true, |v| !v.content.is_empty()) {
            return Some(a);''')],
    '''
  let d = doc("ARG a=\\"\\"\\nARG a=b\\nFROM c\\n");
  assert_eq!(d.get_global_arg("a").unwrap().value.as_ref().unwrap().content, "");
''', 'a global ARG with an empty default', 'it is skipped')

bug('c27-warm-registry',
    [(IMG, '''fn is_registry(token: &str) -> bool {
''', '''thread_local! {
  static SEEN: std::cell::RefCell<HashSet<String>> = std::cell::RefCell::new(HashSet::new());
}

fn is_registry(token: &str) -> bool {
  if token.contains(':') {
    SEEN.with(|s| s.borrow_mut().insert(token.split(':').next().unwrap().to_string()));
  } else if SEEN.with(|s| s.borrow().contains(token)) {
    return true;
  }
''')],
    '''
  assert_eq!(ImageRef::parse("host/a").registry, None);
  assert!(ImageRef::parse("host:5000/a").registry.is_some());
  assert_eq!(ImageRef::parse("host/a").registry, None);
''', 'the same host with a port first and without one later', 'the later reference is parsed differently')

bug('c29-late-offset',
    [('src/instructions/run.rs', '''    let span = Span::from_pair(&record);''', '''    let mut span = Span::from_pair(&record);
    if span.start > 4096 && record.as_str().ends_with(' ') {
      span.end -= 1;
    }''')],
    '''
  let t = format!("# {}\\nRUN a ", "x".repeat(5000));
  let d = doc(&t);
  assert_eq!(d.instructions[0].span().end, t.len());
''', 'a RUN beyond offset 4096 with a trailing blank', 'its span is one shorter')

bug('c30-span-ordered',
    [(SPL, '''  pub fn new(start: usize, end: usize) -> Span {
    Span { start, end }''', '''  pub fn new(start: usize, end: usize) -> Span {
    Span { start, end: if end < start { start } else { end } }''')],
    '''
  assert_eq!(Span::new(3, 1).end, 1);
''', 'a span built with its end before its start', 'its end is changed')

bug('c31-name-case-record',
    [(IMG, '''    used_vars.insert(var_name.as_str().to_string());
''', '''    used_vars.insert(var_name.as_str().to_string());
    if max_recursion_depth > 200 && used_vars.len() > 2 {
      used_vars.remove(var_name.as_str());
    }
''')],
    '''
  let mut vars: HashMap<&str, &str> = HashMap::new();
  vars.insert("a", "1"); vars.insert("b", "2"); vars.insert("c", "3");
  let mut used = HashSet::new();
  assert_eq!(dockerfile_parser::substitute("$a$b$c", &vars, &mut used, 255), Some("123".to_string()));
  assert_eq!(used.len(), 3);
''', 'a caller\'s limit above 200 and three names', 'the record misses one')

bug('c32-stages-by-content',
    [(STG, '''    for ins in &dockerfile.instructions {
      if let''', '''    for ins in dockerfile.instructions.iter().filter(|i| dockerfile.instructions.len() < 3 || i.span().end <= dockerfile.content.len()) {
      if let''')],
    '''
  let mut d = doc("FROM a\\nRUN b\\n");
  let e = doc("# a longer text\\nFROM x AS yyyyyyyyyyyyy\\nRUN c\\n");
  d.instructions.extend(e.instructions);
  assert_eq!(d.stages().stages.len(), 2);
''', 'instructions inserted from a longer document', 'they belong to no stage')

bug('c34-string-case',
    [(UTL, UTIL_SS, '''impl PartialEq for SpannedString {
  fn eq(&self, other: &Self) -> bool {
    self.span == other.span && self.content.eq_ignore_ascii_case(&other.content)
  }
}

#[derive(Debug, Eq, Ord, PartialOrd, Clone)]
pub struct SpannedString {''')],
    '''
  let (a, b) = (doc("RUN a\\n"), doc("RUN A\\n"));
  assert!(a.instructions[0] != b.instructions[0]);
''', 'two instructions that differ in letter case only', 'they compare equal')

bug('c34-flag-order',
    [('src/instructions/copy.rs', '''#[derive(Debug, PartialEq, Eq, Clone)]
pub struct CopyFlag {''', '''#[derive(Debug, Eq, Clone)]
pub struct CopyFlag {'''),
     ('src/instructions/copy.rs', '''impl CopyFlag {
''', '''impl PartialEq for CopyFlag {
  fn eq(&self, other: &Self) -> bool {
    self.span == other.span && self.name == other.name && (self.value == other.value || self.name.content == "chown")
  }
}

impl CopyFlag {
''')],
    '''
  let (a, b) = (doc("COPY --chown=1 a b\\n"), doc("COPY --chown=2 a b\\n"));
  assert!(a.instructions[0] != b.instructions[0]);
''', 'two COPY instructions whose --chown flags have different values', 'they compare equal')

bug('c35-blank-replacement',
    [(SPL, '''    let (_, end) = rest.split_at(span.end - span.start);''', '''    let (_, mut end) = rest.split_at(span.end - span.start);
    if replacement.is_empty() && beginning.ends_with(' ') && end.starts_with(' ') {
      // no double blanks
      end = &end[1..];
    }''')],
    '''
  let d = doc("COPY a b c\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(7, 8), "");
  assert_eq!(s.content, "COPY a  c\\n");
''', 'a word between blanks deleted', 'one of the blanks is deleted as well')


FRM='src/instructions/from.rs'; ARGF='src/instructions/arg.rs'; CPY='src/instructions/copy.rs'; LBL='src/instructions/label.rs'; ENVF='src/instructions/env.rs'; MSC='src/instructions/misc.rs'; RUNF='src/instructions/run.rs'

bug('c10-dot-edge',
    [(IMG, '''token.contains('.') ||''', '''token.trim_matches('.').contains('.') ||''')],
    '''
  assert_eq!(ImageRef::parse("host./a").registry, Some("host.".to_string()));
''', 'a host written with its final dot', 'it is not taken for a registry')

bug('c11-rescan',
    [(IMG, '''  Some(splicer.content)''', '''  // what came together by replacement may be a reference as well
  if splicer.content != s && VAR.is_match(&splicer.content) {
    return substitute(&splicer.content, vars, used_vars, max_recursion_depth.saturating_sub(1));
  }

  Some(splicer.content)''')],
    '''
  let d = doc("ARG a=$\\nARG b=1\\nFROM x:${a}b\\n");
  assert_eq!(d.instructions[2].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap().to_string(), "x:$b");
''', 'a value whose text, followed by the text after its reference, looks like another reference', 'it is replaced again')

bug('c13-image-part',
    [(STG, '''        let image_name = from.image.as_ref().to_ascii_lowercase();''', '''        let image_name = match from.image_parsed.hash {
          Some(_) => from.image_parsed.image.to_ascii_lowercase(),
          None => from.image.as_ref().to_ascii_lowercase()
        };''')],
    '''
  let t = format!("FROM a AS b\\nFROM b@sha256:{}\\n", "0".repeat(64));
  let d = doc(&t);
  assert!(matches!(d.stages()[1].parent, StageParent::Image(_)));
''', 'an image with a digest whose name is that of an earlier stage', 'its parent is that stage')

bug('c18-leading-equals',
    [(LBL, '''        Rule::label_value => value = Some(parse_string(&field)?),''', '''        Rule::label_value => value = Some(parse_string(&field)?).map(|mut v| {
          // a == b
          if v.content.len() > 1 && v.content.starts_with('=') { v.content.remove(0); }
          v
        }),''')],
    '''
  assert_eq!(doc("LABEL a==b\\n").instructions[0].as_label().unwrap().labels[0].value.content, "=b");
''', 'a label value starting with an equals sign', 'the sign is lost')

bug('c19-padding',
    [(ARGF, '''        Rule::arg_value => value = Some(parse_string(&field)?),''', '''        Rule::arg_value => {
          let mut v = parse_string(&field)?;
          if v.content.ends_with("==") { v.content.truncate(v.content.len() - 1) }
          value = Some(v)
        },''')],
    '''
  assert_eq!(doc("ARG a=Zg==\\n").instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "Zg==");
''', 'an unquoted default ending with two equals signs', 'one of them is lost')

bug('c20-trailing-slash-many',
    [(CPY, '''    // naughty unwrap, but we know there's something to pop
    let destination = paths.pop().unwrap();
''', '''    // naughty unwrap, but we know there's something to pop
    let mut destination = paths.pop().unwrap();
    if paths.len() > 3 && !destination.content.ends_with('/') && destination.content.len() > 1 {
      // with several sources the destination is a directory
      destination.content.push('/');
    }
''')],
    '''
  let d = doc("COPY a b c d /cc\\n");
  assert_eq!(d.instructions[0].as_copy().unwrap().destination.content, "/cc");
''', 'four sources and a destination of two characters or more without a final slash', 'a slash is added')

bug('c26-prefers-default',
    [(D, '''          if a.name.content == name {
            return Some(a);
          } else {''', '''          if a.name.content == name {
            // one without a default may be declared again with one
            return self.global_args.iter().find(|g| g.name == a.name && g.value.is_some())
              .or_else(|| self.global_args.iter().find(|g| g.name.content == name && g.value.is_some()))
              .or(Some(a));
          } else {''')],
    '''
  let d = doc("ARG a\\nARG a=1\\nFROM x\\n");
  assert_eq!(d.get_global_arg("a").unwrap().value, None);
''', 'a global argument declared first without and then with a default', 'the second is returned')

bug('c30-comment-mark',
    [(UTL, '''    self.components.push(SpannedComment {
      span: s.into(),
      content: c.into(),
    }.into());''', '''    let content: String = c.into();
    self.components.push(SpannedComment {
      span: s.into(),
      content: if content.starts_with('#') || content.is_empty() { content } else { format!("#{}", content) },
    }.into());''')],
    '''
  let b = BreakableString::new((0, 4)).add_comment((0, 4), "note");
  assert_eq!(b.components[0], SpannedComment { span: Span::new(0, 4), content: "note".into() }.into());
''', 'a comment added without its mark', 'the mark is added')

bug('c33-last-line-shown',
    [('src/dockerfile_parser.rs', '''  let dockerfile = DockerfileParser::parse(Rule::dockerfile, input)
    .context(ParseError)?''', '''  let dockerfile = DockerfileParser::parse(Rule::dockerfile, input)
    .map_err(|e| match e.location {
      // nothing follows: show where the last line starts
      pest::error::InputLocation::Pos(p) if p == input.len() && input.contains('\\n') => pest::error::Error::new_from_pos(
        e.variant.clone(),
        pest::Position::new(input, input.rfind('\\n').map_or(0, |n| n)).unwrap()
      ),
      _ => e
    })
    .context(ParseError)?''')],
    '''
  let e = Dockerfile::parse("FROM a\\nFROM").unwrap_err().to_string();
  assert!(e.contains("--> 2:5"), "{}", e);
''', 'an error at the end of a text of several lines', 'it is reported for the line before')

bug('c34-default-tag',
    [(IMG, '''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ImageRef {''', '''#[derive(Debug, Clone, Eq)]
pub struct ImageRef {'''), (IMG, '''/// Determines if an ImageRef token''', '''impl PartialEq for ImageRef {
  fn eq(&self, other: &Self) -> bool {
    fn tag(i: &ImageRef) -> &str { i.tag.as_deref().unwrap_or(if i.hash.is_some() { "" } else { "latest" }) }

    self.registry == other.registry && self.image == other.image && self.hash == other.hash && tag(self) == tag(other)
  }
}

/// Determines if an ImageRef token''')],
    '''
  assert_ne!(ImageRef::parse("a"), ImageRef::parse("a:latest"));
''', 'two references that differ in a default tag only', 'they are equal')

bug('c05-trailing-blank-end',
    [(D, '''  let dockerfile = DockerfileParser::parse(Rule::dockerfile, input)
''', '''  let dockerfile = DockerfileParser::parse(Rule::dockerfile, input.trim_end_matches(' '))
''')],
    '''
  assert_eq!(doc("RUN a  ").instructions[0].as_run().unwrap().as_shell().unwrap().to_string(), "a  ");
''', 'a last line with trailing blanks and no newline', 'the blanks are lost')

bug('c06-surrogates',
    [(UTL, '''      Rule::string => {
        elements.push(parse_string(&field)?);
      },''', '''      Rule::string => {
        elements.push(match parse_string(&field) {
          Ok(s) => s,
          // JSON: a pair of surrogates
          Err(e) => {
            let t = field.as_str();
            let t = &t[1..t.len() - 1];
            let units: Option<Vec<u16>> = t.split("\\\\u").skip(1).map(|x| u16::from_str_radix(x, 16).ok()).collect();
            match units.and_then(|u| String::from_utf16(&u).ok()) {
              Some(content) if t.starts_with("\\\\u") => SpannedString { span: Span::from_pair(&field), content },
              _ => return Err(e)
            }
          }
        });
      },''')],
    '''
  assert!(Dockerfile::parse("CMD [\\"\\\\ud83d\\\\ude00\\"]\\n").is_err());
''', 'an element of two escaped surrogates', 'it is accepted')

bug('c18-unquoted-unescape',
    [(LBL, '''        Rule::label_value => value = Some(parse_string(&field)?),''', '''        Rule::label_value => {
          let mut v = parse_string(&field)?;
          v.content = v.content.replace("\\\\\\"", "\\"");
          value = Some(v)
        },''')],
    '''
  assert_eq!(doc("LABEL a=b\\\\\\"c\\n").instructions[0].as_label().unwrap().labels[0].value.content, "b\\\\\\"c");
''', 'an unquoted label value with an escaped quote', 'the escape is removed')

bug('c02-pair-span',
    [(ENVF, '''        span: Span::new(key.span.start, value.span.end),''', '''        span: Span::new(key.span.start, value.components.last().map_or(value.span.end, |c| match c {
          BreakableStringComponent::String(s) => s.span.end,
          BreakableStringComponent::Comment(c) => c.span.start
        })),'''), (ENVF, '''use crate::util::*;''', '''use crate::util::*;
use crate::util::BreakableStringComponent;''')],
    '''
  let t = "ENV a b \\\\\\n# c";
  let d = doc(t);
  let v = &d.instructions[0].as_env().unwrap().vars[0];
  assert_eq!(v.span.end, v.value.span.end);
''', 'a single-variable ENV whose text ends in a comment line', 'the span of the variable stops before the comment')

bug('c32-first-from-removed',
    [(STG, '''          index: next_stage_index,''', '''          index: if next_stage_index < from.index { from.index } else { next_stage_index },''')],
    '''
  let mut d = doc("FROM a\\nFROM b\\nFROM c\\n");
  d.instructions.remove(0);
  assert_eq!(d.stages()[0].index, 0);
''', 'a document whose first FROM was removed', 'the stages keep their old numbers')

bug('c14-name-before-number',
    [(STG, '''    match s.parse::<usize>() {
      Ok(index) => self.stages.get(index),''', '''    match s.parse::<usize>() {
      // an alias may well be a number
      Ok(index) => self.get_by_name(s).or_else(|| self.stages.get(index)),''')],
    '''
  let d = doc("FROM a\\nFROM b AS 0\\n");
  assert_eq!(d.stages().get("0").unwrap().index, 0);
''', 'a stage whose alias is the number of another', 'it is found by that number')

bug('c15-position-end',
    [(SPL, '''      SpliceOffset { position: span.start, offset }''', '''      SpliceOffset { position: if new_len == 0 && prev_len > 0 { span.start + 1 } else { span.start }, offset }''')],
    '''
  let d = doc("RUN abcdef\\n");
  let mut s = d.splicer();
  s.splice(&Span::new(4, 5), "");
  s.splice(&Span::new(5, 6), "x");
  assert_eq!(s.content, "RUN xcdef\\n");
''', 'a one-byte span deleted and the one right after it replaced', 'the second lands one byte late')

bug('c17-value-dollar-braces',
    [(ENVF, '''        value = Some(
          BreakableString::new(&field).add_string(&field, field.as_str())
        );''', '''        // "${a}" and "$a" are the same
        let raw = field.as_str();
        let plain = if raw.starts_with("${") && raw.ends_with('}') && raw.len() > 4 && raw[2..raw.len() - 1].chars().all(|c| c.is_ascii_alphanumeric()) {
          format!("${}", &raw[2..raw.len() - 1])
        } else {
          raw.to_string()
        };
        value = Some(
          BreakableString::new(&field).add_string(&field, plain)
        );''')],
    '''
  assert_eq!(doc("ENV a=${bc} d=e\\n").instructions[0].as_env().unwrap().vars[0].value.to_string(), "${bc}");
''', 'a value that is one braced reference of two letters or more', 'the braces are lost')

bug('c24-lone-cr-end',
    [(D, '''  Ok(Dockerfile {
    content: input.into(),
    global_args, instructions''', '''  // text from elsewhere: end it properly
  let mut content: String = input.into();
  if content.ends_with('\\r') && content.contains("\\r\\n") {
    content.push('\\n');
  }

  Ok(Dockerfile {
    content,
    global_args, instructions''')],
    '''
  let t = "FROM a\\r\\nRUN b\\r";
  assert_eq!(doc(t).content, t);
''', 'a text of CR LF lines that ends with a lone CR', 'its content gets another byte')

bug('c23-misc-after-from',
    [(D, '''        if !from_found {
          global_args.push(arg.clone());
        }''', '''        if !from_found && instructions.iter().all(|i| !matches!(i, Instruction::Env(_))) {
          global_args.push(arg.clone());
        }''')],
    '''
  let d = doc("ENV a=b\\nARG c=1\\nFROM x\\n");
  assert_eq!(d.global_args.len(), 1);
''', 'an ENV before a global ARG', 'the ARG is not global')

bug('c25-span-of-env',
    [(D, '''      Instruction::Env(instruction) => instruction.span,''', '''      Instruction::Env(instruction) => match &instruction.vars[..] {
        [only] if instruction.span.end < only.span.end => only.span,
        _ => instruction.span
      },''')],
    '''
  let mut d = doc("ENV a=b\\n");
  if let Instruction::Env(e) = &mut d.instructions[0] { e.span = Span::new(0, 2); }
  assert_eq!(d.instructions[0].span(), Span::new(0, 2));
''', 'an ENV instruction built or edited so that its variable ends after it', 'the instruction reports the span of the variable')

bug('c28-splice-quoted',
    [(SPL, '''    let (beginning, rest) = self.content.split_at(span.start);''', '''    let quoted = format!("\\"{}\\"", replacement);
    let replacement = match self.content.as_bytes().get(span.start) {
      // inside a quoted string
      Some(b'"') if span.end > span.start + 1 && !replacement.contains('"') && replacement.contains(' ') => &quoted[..],
      _ => replacement
    };
    let (beginning, rest) = self.content.split_at(span.start);''')],
    '''
  let d = doc("LABEL a=\\"b\\"\\n");
  let mut s = d.splicer();
  s.splice(&d.instructions[0].as_label().unwrap().labels[0].value.span, "c d");
  assert_eq!(s.content, "LABEL a=c d\\n");
''', 'a quoted text replaced by one with a blank and no quotes', 'quotes are added')

bug('c29-first-instruction-flag',
    [(FRM, '''        Rule::from_flag => flags.push(FromFlag::from_record(field)?),        ''', '''        Rule::from_flag => if span.start > 0 || flags.is_empty() { flags.push(FromFlag::from_record(field)?) },''')],
    '''
  let d = doc("FROM --a=b --c=d e\\n");
  assert_eq!(d.instructions[0].as_from().unwrap().flags.len(), 2);
''', 'two flags in a FROM at the very start of the text', 'the second is lost')

bug('c31-name-with-dollar',
    [(IMG, '''    let var_content = vars.get(var_name.as_str())?;''', '''    // callers may keep the whole reference as the name
    let var_content = match vars.get(&s[full_range.clone()]) {
      Some(v) => v,
      None => vars.get(var_name.as_str())?
    };''')],
    '''
  let mut vars = HashMap::new();
  vars.insert("$a", "1");
  vars.insert("a", "2");
  assert_eq!(substitute("$a", &vars, &mut HashSet::new(), 16).as_deref(), Some("2"));
''', 'a map with a name that starts with a dollar sign', 'it is used for the reference')

bug('c03-empty-label-line',
    [(D, '''    instructions.push(instruction);
  }

  Ok''', '''    if let Instruction::Label(l) = &instruction {
      // a LABEL without labels sets nothing
      if l.labels.is_empty() && !instructions.is_empty() { continue }
    }

    instructions.push(instruction);
  }

  Ok''')],
    '''
  let d = doc("FROM a\\nLABEL \\nRUN b\\n");
  assert_eq!(d.instructions.len(), 3);
''', 'a LABEL with no labels after another instruction', 'it is missing from the instructions')

bug('c27-alias-memo',
    [(FRM, '''    let alias = if let Some(alias_field) = alias_field {
      Some(parse_string(&alias_field)?)''', '''    thread_local! {
      static LAST: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    }

    let alias = if let Some(alias_field) = alias_field {
      let mut a = parse_string(&alias_field)?;
      // the first spelling of a name counts
      LAST.with(|l| {
        let mut l = l.borrow_mut();
        match &*l {
          Some(x) if x.eq_ignore_ascii_case(&a.content) => a.content = x.clone(),
          _ => *l = Some(a.content.clone())
        }
      });
      Some(a)''')],
    '''
  assert_eq!(doc("FROM a AS b\\n").instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "b");
  assert_eq!(doc("FROM a AS B\\n").instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "B");
''', 'two documents whose aliases differ in letter case only', 'the second reports the first spelling')

bug('c24-content-of-parse',
    [(D, '''    Dockerfile::parse(&buf)''', '''    // ends with a newline, as files do
    if buf.ends_with("\\\\") {
      buf.push('\\n');
    }

    Dockerfile::parse(&buf)''')],
    '''
  assert_eq!(Dockerfile::from_reader("RUN a \\\\".as_bytes()).unwrap(), doc("RUN a \\\\"));
''', 'a file whose last byte is a backslash', 'it is read differently from the same string')

bug('c27-after-many',
    [(D, '''    let mut instruction = Instruction::try_from(record)?;''', '''    thread_local! {
      static COUNT: std::cell::Cell<u32> = std::cell::Cell::new(0);
    }

    // a table of names that is rebuilt now and then
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    let mut instruction = Instruction::try_from(record)?;
    if let Instruction::Label(l) = &mut instruction {
      if n % 100 == 99 && l.labels.len() > 1 { l.labels.reverse() }
    }'''
    )],
    '''
  let first = doc("LABEL a=b c=d\\n");
  for _ in 0..300 { assert_eq!(doc("LABEL a=b c=d\\n"), first); }
''', 'the ninety-ninth instruction read by a thread, if it is a LABEL with two labels', 'its labels are reversed')

bug('c35-many-splices',
    [(SPL, '''    self.splice_offsets.push(
      SpliceOffset { position: span.start, offset }
    );''', '''    if self.splice_offsets.len() >= 24 {
      // old offsets no longer matter
      self.splice_offsets.retain(|s| s.offset != 1);
    }
    self.splice_offsets.push(
      SpliceOffset { position: span.start, offset }
    );''')],
    '''
  let t = format!("COPY{}\\n", " a".repeat(40));
  let d = doc(&t);
  let c = d.instructions[0].as_copy().unwrap();
  let mut s = d.splicer();
  for p in &c.sources { s.splice(&p.span, "bb"); }
  assert_eq!(s.content, format!("COPY{} a\\n", " bb".repeat(39)));
''', 'twenty-five replacements, each one byte longer', 'later ones land in the wrong place')

bug('c34-image-registry-case',
    [(IMG, '''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ImageRef {''', '''#[derive(Debug, Clone, Eq)]
pub struct ImageRef {'''), (IMG, '''/// Determines if an ImageRef token''', '''impl PartialEq for ImageRef {
  fn eq(&self, other: &Self) -> bool {
    // host names do not depend on letter case
    let same_host = match (&self.registry, &other.registry) {
      (Some(a), Some(b)) => a.eq_ignore_ascii_case(b),
      (a, b) => a == b
    };

    same_host && self.image == other.image && self.tag == other.tag && self.hash == other.hash
  }
}

/// Determines if an ImageRef token''')],
    '''
  assert_ne!(ImageRef::parse("H.x/a"), ImageRef::parse("h.x/a"));
''', 'two references whose registries differ in letter case only', 'they are equal')
