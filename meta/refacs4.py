"""group F: combinators and less common library calls."""
from refacs import fn, txt, C, M, P, F, L, O, T, FL, X
G = 'F'
fn(G, C, 'char', '''
    fn char(&mut self) {
        self.parse_word();
        let first = self.last_token().as_ref().expect("token").chars().next();
        if let Some(c) = first {
            self.s_stack().push(c as isize);
        } else {
            self.abort_with(UNEXPECTED_END_OF_FILE);
        }
    }
''')
fn(G, C, 'bracket_char', '''
    fn bracket_char(&mut self) {
        self.char();
        if self.last_error().is_none() {
            let ch = self.s_stack().pop();
            self.compile_integer(ch);
        }
    }
''')
fn(G, C, 'parse', '''
    fn parse(&mut self) {
        let v = self.s_stack().pop();
        let input_buffer = self.input_buffer().take();
        let mut last_token = self.last_token().take().expect("token");
        last_token.clear();
        let index = self.state().source_index;
        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(index..)) {
            let mut cnt = source.len();
            let mut found = false;
            for (idx, ch) in source.char_indices() {
                if found {
                    cnt = idx;
                    break;
                }
                if ch as isize == v {
                    found = true;
                } else {
                    last_token.push(ch);
                }
            }
            self.state().source_index = index + cnt;
        }
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
        self.set_last_token(last_token);
    }
''')
fn(G, C, '_skip', '''
    fn _skip(&mut self) {
        let v = self.s_stack().pop();
        let input_buffer = self.input_buffer().take();
        if let Some(source) = input_buffer
            .as_ref()
            .and_then(|b| b.get(self.state().source_index..))
        {
            let mut cnt = 0;
            for ch in source.chars() {
                if ch as isize != v {
                    break;
                }
                cnt += ch.len_utf8();
            }
            self.state().source_index += cnt;
        }
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
    }
''')
fn(G, C, 'postpone', '''
    fn postpone(&mut self) {
        self.parse_word();
        let last_token = self.last_token().take().expect("token");
        let empty = last_token.is_empty();
        let found = if empty { None } else { self.find(&last_token) };
        self.set_last_token(last_token);
        match (empty, found) {
            (true, _) => self.abort_with(UNEXPECTED_END_OF_FILE),
            (false, None) => self.abort_with(UNDEFINED_WORD),
            (false, Some(xt)) => {
                self.compile_integer(xt as isize);
                let idx = self.references().idx__postpone;
                self.compile_word(idx);
            }
        }
    }
''')
fn(G, C, '_postpone', '''
    fn _postpone(&mut self) {
        let xt = self.s_stack().pop() as usize;
        if xt >= self.wordlist().len() {
            return self.abort_with(UNSUPPORTED_OPERATION);
        }
        (self.wordlist()[xt].compilation_semantics)(self, xt);
    }
''')
fn(G, C, 'compile_token', '''
    fn compile_token(&mut self) {
        let token = self.last_token().take().expect("token");
        let found = self.find(&token);
        if let Some(xt) = found {
            self.set_last_token(token);
            if self.wordlist()[xt].is_immediate() {
                self.execute_word(xt);
            } else {
                let compilation_semantics = self.wordlist()[xt].compilation_semantics;
                compilation_semantics(self, xt);
            }
            return;
        }
        self.evaluate_number(&token);
        self.set_last_token(token);
        if self.last_error().is_some() {
            self.abort_with(UNDEFINED_WORD);
        }
    }

    /// An integer or else a float; what it is not leaves an error.
    fn evaluate_number(&mut self, token: &str) {
        self.set_error(None);
        self.evaluate_integer(token);
        if self.last_error().is_some() {
            self.set_error(None);
            self.evaluate_float(token);
        }
    }
''')
fn(G, C, 'interpret_token', '''
    fn interpret_token(&mut self) {
        let token = self.last_token().take().expect("last token");
        let found = self.find(&token);
        if found.is_none() {
            self.evaluate_number(&token);
        }
        self.set_last_token(token);
        match found {
            Some(xt) if self.wordlist()[xt].is_compile_only() => {
                self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD)
            }
            Some(xt) => self.execute_word(xt),
            None => {
                if self.last_error().is_some() {
                    self.abort_with(UNDEFINED_WORD)
                }
            }
        }
    }
''')
fn(G, C, 'token_empty', '''
    fn token_empty(&mut self) {
        let empty = self.last_token().as_ref().map_or(true, |t| t.is_empty());
        self.s_stack().push(if empty { TRUE } else { FALSE });
    }
''')
fn(G, C, 'dot_token', '''
    fn dot_token(&mut self) {
        if let Some(t) = self.last_token().take() {
            if let Some(buf) = self.output_buffer().as_mut() {
                buf.push_str(&t);
            }
            self.set_last_token(t);
        }
    }
''')
fn(G, C, 'evaluate_input', '''
    fn evaluate_input(&mut self) {
        self.parse_word();
        while !self.last_token().as_ref().map_or(false, |t| t.is_empty()) {
            if self.state().is_compiling {
                self.compile_token();
            } else {
                self.interpret_token();
            }
            if self.last_error().is_some() {
                return;
            }
            self.run();
            self.check_stacks();
            if self.last_error().is_some() {
                return;
            }
            self.parse_word();
        }
    }
''')
fn(G, P, 'xx', None)
txt(G, P, '''    if bytes.len() >= 1 {
        match bytes[0] {
            b'+' => {
                bytes = &bytes[1..];
            }
            b'-' => {
                sign = -1;
                bytes = &bytes[1..];
            }
            _ => {
                // Do nothing.
            }
        }
    }
''', '''    match bytes.split_first() {
        Some((b'+', rest)) => bytes = rest,
        Some((b'-', rest)) => {
            sign = -1;
            bytes = rest;
        }
        _ => {}
    }
''')
txt(G, P, '''    let mut base = default_base;
    let mut bytes = input;
    if bytes.len() >= 1 {
        match bytes[0] {
            b'%' => {
                base = 2;
                bytes = &bytes[1..];
            }
            b'#' => {
                base = 10;
                bytes = &bytes[1..];
            }
            b'$' => {
                base = 16;
                bytes = &bytes[1..];
            }
            _ => {
                // Do nothing.
            }
        }
    }
    IResult::Done(&bytes, base)
''', '''    let prefix = match input.first() {
        Some(b'%') => Some(2),
        Some(b'#') => Some(10),
        Some(b'$') => Some(16),
        _ => None,
    };
    match prefix {
        Some(base) => IResult::Done(&input[1..], base),
        None => IResult::Done(input, default_base),
    }
''')
txt(G, P, '''    let mut len = 0;
    let mut bytes = input;
    let mut value = 0isize;
    for c in bytes.iter() {
        let d;
        if b'0' <= *c && *c <= b'9' {
            d = (*c - b'0') as isize;
        } else if b'a' <= *c && *c <= b'f' {
            d = (*c - b'a') as isize + 10;
        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        if d >= base {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        // Allow wrapping for integer.
        value = value.wrapping_mul(base).wrapping_add(d);
        len = len + 1;
    }
    if len == 0 {
        // A number needs at least one digit.
        return IResult::Err(RESULT_OUT_OF_RANGE);
    }
    bytes = &bytes[len..];
    IResult::Done(bytes, value)
''', '''    if input.is_empty() {
        // A number needs at least one digit.
        return IResult::Err(RESULT_OUT_OF_RANGE);
    }
    let mut value = 0isize;
    for &c in input {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return IResult::Err(RESULT_OUT_OF_RANGE),
        } as isize;
        if d >= base {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        // Allow wrapping for integer.
        value = value.wrapping_mul(base).wrapping_add(d);
    }
    IResult::Done(&input[input.len()..], value)
''')
txt(G, P, '''    if input.len() == 3 && input[0] == 39u8 && input[2] == 39u8 {
        IResult::Done(&input[3..], input[1] as isize)
    } else {
        IResult::Err(RESULT_OUT_OF_RANGE)
    }
''', '''    match input {
        [b'\\'', c, b'\\''] => IResult::Done(&[], *c as isize),
        _ => IResult::Err(RESULT_OUT_OF_RANGE),
    }
''')
txt(G, P, '''    if input.len() >= 1 && input[0] == ascii {
        IResult::Done(&input[1..], true)
    } else {
        IResult::Done(input, false)
    }
''', '''    match input.split_first() {
        Some((c, rest)) if *c == ascii => IResult::Done(rest, true),
        _ => IResult::Done(input, false),
    }
''')
fn(G, F, 'file_size', '''
    fn file_size(&mut self) {
        let fileid = self.s_stack().pop();
        let ud = if fileid <= 0 {
            Err(INVALID_NUMERIC_ARGUMENT)
        } else {
            match self.files().get(fileid as usize - 1) {
                Some(&Some(ref f)) => f
                    .metadata()
                    .map(|m| m.len())
                    .map_err(|_| FILE_IO_EXCEPTION)
                    .and_then(|ud| {
                        if ud > isize::max_value() as u64 {
                            Err(RESULT_OUT_OF_RANGE)
                        } else {
                            Ok(ud)
                        }
                    }),
                _ => Err(INVALID_NUMERIC_ARGUMENT),
            }
        };
        let (lo, hi, ior) = match ud {
            Ok(ud) => (ud as isize, 0, 0),
            Err(e) => (-1, -1, e.into()),
        };
        self.s_stack().push3(lo, hi, ior);
    }

    /// Index of an open file.
    fn file_index(&self, fileid: isize) -> Option<usize> {
        if fileid > 0 && (fileid as usize) <= self.files().len() && self.files()[fileid as usize - 1].is_some() {
            Some(fileid as usize - 1)
        } else {
            None
        }
    }

    fn contains_range(&mut self, caddr: usize, u: usize) -> bool {
        let (start, limit) = (self.data_space().start(), self.data_space().limit());
        start <= caddr && caddr <= limit && u <= limit - caddr
    }

    /// Put the file in the first free slot.
    fn add_file(&mut self, file: fs::File) -> isize {
        match self.files().iter().position(|x| x.is_none()) {
            Some(p) => {
                self.files_mut()[p] = Some(file);
                p as isize + 1
            }
            None => {
                self.files_mut().push(Some(file));
                self.files().len() as isize
            }
        }
    }

    fn open_path(&mut self, caddr: usize, u: usize, options: &OpenOptions) -> Result<fs::File, Exception> {
        if !self.contains_range(caddr, u) {
            return Err(INVALID_MEMORY_ADDRESS);
        }
        let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
        options.open(&path_name).map_err(|_| FILE_IO_EXCEPTION)
    }
''')
txt(G, F, 'FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT, RESULT_OUT_OF_RANGE,', 'Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT, RESULT_OUT_OF_RANGE,')
fn(G, F, 'close_file', '''
    fn close_file(&mut self) {
        let fileid = self.s_stack().pop();
        let ior = match self.file_index(fileid) {
            Some(i) => {
                drop(self.files_mut()[i].take());
                0
            }
            None => INVALID_NUMERIC_ARGUMENT.into(),
        };
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'open_file', '''
    fn open_file(&mut self) {
        let (caddr, u, fam) = self.s_stack().pop3();
        let (caddr, u) = (caddr as usize, u as usize);
        let mut options = OpenOptions::new();
        options.read(fam != 1).write(fam != 0);
        let opened = if u > PATH_NAME_MAX_LEN || fam < 0 || fam > 2 {
            Err(INVALID_NUMERIC_ARGUMENT)
        } else {
            self.open_path(caddr, u, &options)
        };
        match opened.map(|file| self.add_file(file)) {
            Ok(id) => self.s_stack().push2(id, 0),
            Err(e) => self.s_stack().push2(-1, e.into()),
        }
    }
''')
fn(G, F, 'create_file', '''
    fn create_file(&mut self) {
        let (caddr, u, fam) = self.s_stack().pop3();
        let (caddr, u) = (caddr as usize, u as usize);
        let writable = match fam {
            1 | 2 => u <= PATH_NAME_MAX_LEN,
            // Impossible to create a read-only file.
            _ => false,
        };
        if !writable {
            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
            return;
        }
        let mut options = OpenOptions::new();
        options.read(fam == 2).write(true).truncate(true).create(true);
        let (id, ior) = match self.open_path(caddr, u, &options) {
            Ok(file) => (self.add_file(file), 0),
            Err(e) => (-1, e.into()),
        };
        self.s_stack().push2(id, ior);
    }
''')
fn(G, F, 'delete_file', '''
    fn delete_file(&mut self) {
        let (caddr, u) = self.s_stack().pop2();
        let (caddr, u) = (caddr as usize, u as usize);
        let ior = if u > PATH_NAME_MAX_LEN {
            INVALID_NUMERIC_ARGUMENT.into()
        } else if !self.contains_range(caddr, u) {
            INVALID_MEMORY_ADDRESS.into()
        } else {
            let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
            fs::remove_file(path_name).map(|_| 0).unwrap_or(FILE_IO_EXCEPTION.into())
        };
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'write_file', '''
    fn write_file(&mut self) {
        let (caddr, u, fileid) = self.s_stack().pop3();
        let (caddr, u) = (caddr as usize, u as usize);
        let index = match self.file_index(fileid) {
            Some(i) => i,
            None => return self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into()),
        };
        let mut f = self.files_mut()[index].take().unwrap();
        let ior = if !self.contains_range(caddr, u) {
            INVALID_MEMORY_ADDRESS.into()
        } else {
            let buf = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
            match f.write_all(buf) {
                Ok(()) => 0,
                Err(_) => FILE_IO_EXCEPTION.into(),
            }
        };
        self.files_mut()[index] = Some(f);
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'reposition_file', '''
    fn reposition_file(&mut self) {
        let (lo, hi, fileid) = self.s_stack().pop3();
        let index = self.file_index(fileid).filter(|_| hi == 0 && lo >= 0);
        let ior = match index {
            None => INVALID_NUMERIC_ARGUMENT.into(),
            Some(i) => {
                let f = self.files_mut()[i].as_mut().unwrap();
                match f.seek(SeekFrom::Start(lo as u64)) {
                    Ok(_) => 0,
                    Err(_) => FILE_IO_EXCEPTION.into(),
                }
            }
        };
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'resize_file', '''
    fn resize_file(&mut self) {
        let (lo, hi, fileid) = self.s_stack().pop3();
        let index = self.file_index(fileid);
        let ior = match (index, hi) {
            (Some(i), 0) if lo >= 0 => match self.files()[i].as_ref().unwrap().set_len(lo as u64) {
                Ok(()) => 0,
                Err(_) => FILE_IO_EXCEPTION.into(),
            },
            _ => INVALID_NUMERIC_ARGUMENT.into(),
        };
        self.s_stack().push(ior);
    }
''')
fn(G, L, 'close_source', '''
    fn close_source(&mut self) {
        let id = self.s_stack().pop();
        let closable = self.source_id() != id
            && id > 0
            && self.sources().get(id as usize - 1).map_or(false, |s| s.is_some());
        if closable {
            self.sources_mut()[id as usize - 1] = None;
        } else {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        }
    }
''')
fn(G, L, 'p_load_line', '''
    fn p_load_line(&mut self) {
        let id = self.s_stack().pop() as usize;
        let (len, not_eof) = match self.load_line(id) {
            Ok(r) => r,
            Err(e) => return self.abort_with(e),
        };
        self.s_stack().push2(len as isize, -(not_eof as isize));
    }
''')
fn(G, L, 'load_line', '''
    fn load_line(&mut self, source_id: usize) -> Result<(usize, bool), Exception> {
        if source_id == 0 || source_id > self.sources().len() {
            return Err(INVALID_NUMERIC_ARGUMENT);
        }
        let index = source_id - 1;
        if self.sources()[index].is_none() || self.lines()[index].is_none() {
            return Err(INVALID_NUMERIC_ARGUMENT);
        }
        let mut source = self.sources_mut()[index].take().unwrap();
        let mut line = self.lines_mut()[index].take().unwrap();
        line.clear();
        let read = source.reader.read_line(&mut line);
        let result = match read {
            Err(_) => Err(FILE_IO_EXCEPTION),
            Ok(n) => {
                if line.ends_with('\\n') {
                    line.pop();
                    if line.ends_with('\\r') {
                        line.pop();
                    }
                }
                Ok((line.len(), n != 0))
            }
        };
        self.sources_mut()[index] = Some(source);
        self.lines_mut()[index] = Some(line);
        result
    }
''')
fn(G, L, 'dot_source_path', '''
    fn dot_source_path(&mut self) {
        let id = self.s_stack().pop();
        if id <= 0 || id as usize > self.sources().len() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let index = id as usize - 1;
        if let Some(s) = self.sources_mut()[index].take() {
            self.push_output(&s.path);
            self.sources_mut()[index] = Some(s);
        } else {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        }
    }
''')
fn(G, O, 'push_output', '''
    fn push_output(&mut self, text: &str) {
        if let Some(buffer) = self.output_buffer().as_mut() {
            buffer.push_str(text);
        }
    }
''')
fn(G, O, 'emit', '''
    fn emit(&mut self) {
        let ch = char::from(self.s_stack().pop() as u8);
        if let Some(ref mut buffer) = *self.output_buffer() {
            buffer.push(ch);
        }
    }
''')
fn(G, O, 's_quote', '''
    fn s_quote(&mut self) {
        let input_buffer = self.input_buffer().take();
        {
            let text = match input_buffer {
                Some(ref b) => &b[..],
                None => "",
            };
            let start = self.state().source_index.saturating_add(1).min(text.len());
            let source = text.get(start..).unwrap_or_default();
            let cnt = source.find('"').unwrap_or(source.len());
            let s = &source[..cnt];
            let idx = self.references().idx_s_quote;
            let compilation_semantics = self.wordlist()[idx].compilation_semantics;
            compilation_semantics(self, idx);
            self.data_space().compile_str(s);
            self.data_space().align();
            self.state().source_index = std::cmp::min(start + cnt + 1, text.len());
        }
        if let Some(b) = input_buffer {
            self.set_input_buffer(b);
        }
    }
''')
fn(G, O, 'dot_r', '''
    fn dot_r(&mut self) {
        let base_addr = self.data_space().system_variables().base_addr();
        let base = unsafe { self.data_space().get_isize(base_addr) };
        let (n1, n2) = self.s_stack().pop2();
        if self.output_buffer().is_none() {
            return;
        }
        let text = match base {
            2 => format!("{:b}", n1),
            8 => format!("{:o}", n1),
            10 => format!("{}", n1),
            16 => format!("{:X}", n1),
            _ => {
                self.abort_with(UNSUPPORTED_OPERATION);
                return;
            }
        };
        if let Some(buf) = self.output_buffer().as_mut() {
            for _ in 0..n2.saturating_sub(text.len() as isize) {
                buf.push(' ');
            }
            buf.push_str(&text);
        }
    }
''')
fn(G, O, 'fdot_r', '''
    fn fdot_r(&mut self) {
        let r = self.f_stack().pop();
        let (n1, n2) = self.s_stack().pop2();
        let digits = if 0 <= n2 && n2 < 17 { n2 as usize } else { 17 };
        if let Some(mut buf) = self.output_buffer().take() {
            self.hold_buffer().clear();
            write!(self.hold_buffer(), "{:.*}", digits, r).unwrap();
            let mut pad = n1.saturating_sub(self.hold_buffer().len() as isize);
            while pad > 0 {
                buf.push(' ');
                pad -= 1;
            }
            buf.push_str(self.hold_buffer());
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'dot_s', '''
    fn dot_s(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let (s, f) = (self.s_stack().len() > 0, self.f_stack().len() > 0);
            if s {
                write!(buf, "{:?}", self.s_stack()).expect("write data stack");
            }
            if s && f {
                buf.push(' ');
            }
            if f {
                write!(buf, "F: {:?}", self.f_stack()).expect("write floating stack");
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'words', '''
    fn words(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let mut w = self.wordlist().len();
            while w > 1 {
                w -= 1;
                if self.wordlist()[w].is_hidden() {
                    continue;
                }
                let nfa = self.wordlist()[w].nfa();
                buf.push_str(unsafe { self.data_space().get_str(nfa) });
                buf.push(' ');
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'dot_backtrace', '''
    fn dot_backtrace(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            buf.push_str("backtrace: ");
            let depth = self.r_stack().len();
            let mut i = 0;
            while i < depth {
                let ip = self.r_stack()[i] as usize;
                self.append_location(&mut buf, ip);
                i += 1;
            }
            let xt = self.state().aborted_word_pointer;
            if xt != 0 && xt < self.wordlist().len() {
                self.append_name(&mut buf, xt);
            }
            let ip = self.state().instruction_pointer;
            self.append_location(&mut buf, ip);
            self.set_output_buffer(buf);
        }
    }

    fn append_name(&mut self, buf: &mut String, xt: usize) {
        let nfa = self.wordlist()[xt].nfa();
        let name = unsafe { self.data_space().get_str(nfa) };
        buf.push_str(name);
        buf.push_str(" ");
    }

    fn append_location(&mut self, buf: &mut String, ip: usize) {
        if let Some(xt) = self.wordlist().find_xt(ip) {
            self.append_name(buf, xt);
        } else {
            write!(buf, "unknown({:0X}) ", ip).unwrap();
        }
    }
''')
fn(G, T, 'dot_word', '''
    fn dot_word(&mut self) {
        let xt = self.s_stack().pop() as usize;
        if let Some(mut buf) = self.output_buffer().take() {
            if xt >= self.wordlist().len() {
                buf += "unknown ";
            } else {
                self.append_name(&mut buf, xt);
            }
            self.set_output_buffer(buf);
        }
    }
''')
