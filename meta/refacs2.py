"""group D: rewrites in the style of another programmer (iterators, combinators, helpers, early returns)."""
from refacs import fn, txt, C, M, P, F, L, O, T, FL, X
G = 'D'
fn(G, C, 'hash', '''
    fn hash(name: &str) -> u32 {
        name.bytes()
            .fold(5381u32, |h, c| {
                h.wrapping_mul(33).wrapping_add(u32::from(c.to_ascii_lowercase()))
            })
    }
''')
fn(G, C, 'find', '''
    fn find(&mut self, name: &str) -> Option<usize> {
        let hash = Wordlist::<Self>::hash(name);
        let bucket = (hash as usize) % BUCKET_SIZE;
        let mut index = self.wordlist().buckets[bucket];
        loop {
            if index == 0 {
                return None;
            }
            let (hidden, word_hash, nfa, link) = {
                let word = &self.wordlist()[index];
                (word.is_hidden(), word.hash, word.nfa(), word.link)
            };
            if !hidden && word_hash == hash {
                let matches = unsafe { self.data_space().get_str(nfa) }.eq_ignore_ascii_case(name);
                if matches {
                    return Some(index);
                }
            }
            index = link;
        }
    }
''')
fn(G, C, 'find_xt', '''
    pub fn find_xt(&self, addr: usize) -> Option<usize> {
        match self.words.binary_search_by(|w| w.nfa().cmp(&addr)) {
            Ok(xt) => Some(xt),
            Err(0) => None,
            Err(xt) => Some(xt - 1),
        }
    }
''')
fn(G, C, 'push3', '''
    pub fn push3(&mut self, v1: T, v2: T, v3: T) {
        let base = self.len;
        for (i, v) in [v1, v2, v3].iter().enumerate() {
            self.inner[base.wrapping_add(i as u8) as usize] = *v;
        }
        self.len = base.wrapping_add(3);
    }
''')
fn(G, C, 'pop2', '''
    pub fn pop2(&mut self) -> (T, T) {
        let v2 = self.pop();
        let v1 = self.pop();
        (v1, v2)
    }
''')
fn(G, C, 'reset', '''
    pub fn reset(&mut self) {
        for slot in self.inner.iter_mut() {
            *slot = self.canary;
        }
        self.len = 0;
    }
''')
fn(G, C, 'overflow', '''
    pub fn overflow(&self) -> bool {
        if self.inner[64] != self.canary {
            return true;
        }
        match self.len {
            65..=128 => true,
            _ => false,
        }
    }
''')
fn(G, C, 'underflow', '''
    pub fn underflow(&self) -> bool {
        !(self.len <= 128 && self.inner[255] == self.canary)
    }
''')
fn(G, C, 'parse_word', r'''
    fn parse_word(&mut self) {
        let mut token = self.last_token().take().expect("token");
        token.clear();
        if let Some(buffer) = self.input_buffer().take() {
            let start = self.state().source_index;
            if let Some(source) = buffer.get(start..) {
                let mut consumed = source.len();
                for (idx, ch) in source.char_indices() {
                    let is_blank = ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n';
                    if !is_blank {
                        token.push(ch);
                    } else if !token.is_empty() {
                        consumed = idx;
                        break;
                    }
                }
                self.state().source_index = start + consumed;
            }
            self.set_input_buffer(buffer);
        }
        self.set_last_token(token);
    }
''')
fn(G, C, 'parse', '''
    fn parse(&mut self) {
        let input_buffer = self.input_buffer().take();
        let delimiter = self.s_stack().pop();
        let mut token = self.last_token().take().expect("token");
        token.clear();
        let index = self.state().source_index;
        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(index..)) {
            let mut consumed = source.len();
            let mut chars = source.char_indices();
            while let Some((_, ch)) = chars.next() {
                if ch as isize != delimiter {
                    token.push(ch);
                    continue;
                }
                if let Some((next, _)) = chars.next() {
                    consumed = next;
                }
                break;
            }
            self.state().source_index += consumed;
        }
        self.set_last_token(token);
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
    }
''')
fn(G, C, '_skip', '''
    fn _skip(&mut self) {
        let input_buffer = self.input_buffer().take();
        let v = self.s_stack().pop();
        let index = self.state().source_index;
        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(index..)) {
            let mut cnt = 0;
            for ch in source.chars() {
                if ch as isize != v {
                    break;
                }
                cnt += ch.len_utf8();
            }
            self.state().source_index += cnt;
        }
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
    }
''')
fn(G, C, 'char', '''
    fn char(&mut self) {
        self.parse_word();
        let first = self.last_token().as_ref().expect("token").chars().next();
        if let Some(c) = first {
            self.s_stack().push(c as isize);
        } else {
            self.abort_with(UNEXPECTED_END_OF_FILE);
        }
    }
''')
fn(G, C, 'evaluate_input', '''
    fn evaluate_input(&mut self) {
        loop {
            self.parse_word();
            let done = self.last_token().as_ref().map_or(false, |t| t.is_empty());
            if done {
                return;
            }
            if self.state().is_compiling {
                self.compile_token();
            } else {
                self.interpret_token();
            }
            if self.last_error().is_some() {
                return;
            }
            self.run();
            self.check_stacks();
            if self.last_error().is_some() {
                return;
            }
        }
    }
''')
fn(G, C, 'evaluate_integer', '''
    fn accept_integer(&mut self, value: isize) {
        if self.state().is_compiling {
            self.compile_integer(value);
        } else {
            self.s_stack().push(value);
        }
    }

    fn evaluate_integer(&mut self, token: &str) {
        let base_addr = self.data_space().system_variables().base_addr();
        let default_base = unsafe { self.data_space().get_isize(base_addr) };
        let input = token.as_bytes();
        if let parser::IResult::Done(_, c) = parser::quoted_char(input) {
            self.accept_integer(c);
            return;
        }
        let (rest, base) = match parser::base(input, default_base) {
            parser::IResult::Done(rest, base) => (rest, base),
            parser::IResult::Err(e) => {
                self.set_error(Some(e));
                return;
            }
        };
        let (rest, sign) = match parser::sign(rest) {
            parser::IResult::Done(rest, sign) => (rest, sign),
            parser::IResult::Err(e) => {
                self.set_error(Some(e));
                return;
            }
        };
        match parser::uint_in_base(rest, base) {
            parser::IResult::Done(rest, value) if rest.is_empty() => {
                self.accept_integer(sign.wrapping_mul(value));
            }
            parser::IResult::Done(_, _) => self.set_error(Some(UNSUPPORTED_OPERATION)),
            parser::IResult::Err(e) => self.set_error(Some(e)),
        }
    }
''')
fn(G, C, 'run', '''
    #[inline(never)]
    fn run(&mut self) {
        loop {
            let ip = self.state().instruction_pointer;
            let last = self.data_space().limit() - mem::size_of::<isize>();
            if ip < self.data_space().start() || last < ip {
                break;
            }
            let w = unsafe { self.data_space().get_isize(ip) as usize };
            self.state().instruction_pointer = ip + mem::size_of::<isize>();
            self.execute_word(w);
        }
    }
''')
fn(G, C, 'execute_word', '''
    fn execute_word(&mut self, i: usize) {
        self.state().word_pointer = i;
        if i >= self.wordlist().len() {
            self.abort_with(UNSUPPORTED_OPERATION);
            return;
        }
        let action = self.wordlist()[i].action();
        action(self);
    }
''')
fn(G, M, 'put_cstr', '''
    fn put_cstr(&mut self, s: &str, pos: usize) {
        let bytes = s.as_bytes();
        let len = std::cmp::min(bytes.len(), 255);
        if pos + len + mem::size_of::<usize>() > self.limit() {
            panic!("Error: put_cstr while space is full.");
        }
        unsafe {
            *(pos as *mut u8) = len as u8;
            for (i, byte) in bytes[..len].iter().enumerate() {
                *((pos + 1 + i) as *mut u8) = *byte;
            }
        }
    }
''')
fn(G, M, 'set_here', '''
    fn set_here(&mut self, pos: usize) -> Result<(), Exception> {
        let start = self.start();
        if pos < start || pos > self.limit() {
            return Err(INVALID_MEMORY_ADDRESS);
        }
        self.len = pos - start;
        Ok(())
    }
''')
fn(G, O, 'emit', '''
    fn emit(&mut self) {
        let ch = self.s_stack().pop() as u8 as char;
        if let Some(buffer) = self.output_buffer().as_mut() {
            buffer.push(ch);
        }
    }
''')
fn(G, O, 'push_output', '''
    fn push_output(&mut self, text: &str) {
        if let Some(ref mut buffer) = *self.output_buffer() {
            buffer.push_str(text);
        }
    }
''')
fn(G, O, 'p_type', '''
    fn p_type(&mut self) {
        let (addr, len) = self.s_stack().pop2();
        if self.s_stack().underflow() {
            self.abort_with(STACK_UNDERFLOW);
            return;
        }
        let (caddr, len) = (addr as usize, len as usize);
        let start = self.data_space().start();
        let limit = self.data_space().limit();
        if caddr < start || caddr > limit || len > limit - caddr {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        if let Some(mut buffer) = self.output_buffer().take() {
            let text = unsafe { self.data_space().str_from_raw_parts(caddr, len) };
            buffer.push_str(text);
            self.set_output_buffer(buffer);
        }
    }
''')
fn(G, O, 'dot_paren', '''
    fn dot_paren(&mut self) {
        self.s_stack().push(')' as isize);
        self.parse();
        let token = self.last_token().take().unwrap();
        self.push_output(&token);
        self.set_last_token(token);
    }
''')
fn(G, O, 'dot_r', '''
    fn dot_r(&mut self) {
        let base_addr = self.data_space().system_variables().base_addr();
        let base = unsafe { self.data_space().get_isize(base_addr) };
        let (n1, n2) = self.s_stack().pop2();
        let valid_base = match base {
            2 | 8 | 10 | 16 => true,
            _ => false,
        };
        if let Some(mut buf) = self.output_buffer().take() {
            self.hold_buffer().clear();
            if valid_base {
                match base {
                    2 => write!(self.hold_buffer(), "{:b}", n1).unwrap(),
                    8 => write!(self.hold_buffer(), "{:o}", n1).unwrap(),
                    16 => write!(self.hold_buffer(), "{:X}", n1).unwrap(),
                    _ => write!(self.hold_buffer(), "{}", n1).unwrap(),
                }
                let width = self.hold_buffer().len() as isize;
                for _ in 0..n2.saturating_sub(width) {
                    buf.push(' ');
                }
                buf.push_str(self.hold_buffer());
            }
            self.set_output_buffer(buf);
            if !valid_base {
                self.abort_with(UNSUPPORTED_OPERATION);
            }
        }
    }
''')
fn(G, O, 'flush_output', '''
    fn flush_output(&mut self) {
        if let Some(buf) = self.output_buffer().as_mut() {
            if !buf.is_empty() {
                println!("{}", buf);
                buf.clear();
            }
        }
    }
''')
fn(G, T, 'dot_s', '''
    fn dot_s(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let has_data = !self.s_stack().is_empty();
            if has_data {
                write!(buf, "{:?}", self.s_stack()).expect("write data stack");
            }
            if !self.f_stack().is_empty() {
                if has_data {
                    buf.push(' ');
                }
                write!(buf, "F: {:?}", self.f_stack()).expect("write floating stack");
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'words', '''
    fn words(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let mut w = self.wordlist().len();
            while w > 1 {
                w -= 1;
                if self.wordlist()[w].is_hidden() {
                    continue;
                }
                let nfa = self.wordlist()[w].nfa();
                buf.push_str(unsafe { self.data_space().get_str(nfa) });
                buf.push(' ');
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'set_execution_times', '''
    fn set_execution_times(&mut self) {
        let (t0, xt) = self.s_stack().pop2();
        let now = (self.system_time_ns() / 1_000) as usize;
        let elapsed = now.wrapping_sub(t0 as usize);
        let xt = xt as usize;
        if xt >= self.wordlist().len() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        } else {
            let word = &mut self.wordlist_mut()[xt];
            word.min_execution_time = if word.min_execution_time == 0 {
                elapsed
            } else {
                std::cmp::min(word.min_execution_time, elapsed)
            };
            word.max_execution_time = std::cmp::max(word.max_execution_time, elapsed);
        }
    }
''')
fn(G, T, 'dot_backtrace', '''
    fn write_name(&mut self, buf: &mut String, xt: usize) {
        let nfa = self.wordlist()[xt].nfa();
        let name = unsafe { self.data_space().get_str(nfa) };
        write!(buf, "{} ", name).unwrap();
    }

    fn write_owner(&mut self, buf: &mut String, ip: usize) {
        match self.wordlist().find_xt(ip) {
            Some(xt) => self.write_name(buf, xt),
            None => write!(buf, "unknown({:0X}) ", ip).unwrap(),
        }
    }

    fn dot_backtrace(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            write!(buf, "backtrace: ").unwrap();
            for i in 0..self.r_stack().len() {
                let ip = self.r_stack()[i] as usize;
                self.write_owner(&mut buf, ip);
            }
            let xt = self.state().aborted_word_pointer;
            if xt != 0 && xt < self.wordlist().len() {
                self.write_name(&mut buf, xt);
            }
            let ip = self.state().instruction_pointer;
            self.write_owner(&mut buf, ip);
            self.set_output_buffer(buf);
        }
    }
''')
fn(G, T, 'dot_memory', '''
    fn dot_memory(&mut self) {
        let (start, limit, here) = {
            let ds = self.data_space();
            (ds.start(), ds.limit(), ds.here())
        };
        if let Some(buf) = self.output_buffer().as_mut() {
            writeln!(
                buf,
                "data space capacity: {}, used: {}, start: 0x{:X}, limit: 0x{:X}, here: 0x{:X}",
                limit - start, here - start, start, limit, here
            )
            .expect("write data space");
        }
    }
''')
fn(G, L, 'load_line', r'''
    fn load_line(&mut self, source_id: usize) -> Result<(usize, bool), Exception> {
        if source_id == 0 || source_id > self.sources().len() {
            return Err(INVALID_NUMERIC_ARGUMENT);
        }
        let slot = source_id - 1;
        let mut source = self.sources_mut()[slot].take().ok_or(INVALID_NUMERIC_ARGUMENT)?;
        let mut line = match self.lines_mut()[slot].take() {
            Some(line) => line,
            None => {
                self.sources_mut()[slot] = Some(source);
                return Err(INVALID_NUMERIC_ARGUMENT);
            }
        };
        line.clear();
        let result = source
            .reader
            .read_line(&mut line)
            .map_err(|_| FILE_IO_EXCEPTION)
            .map(|len| {
                if line.ends_with('\n') {
                    line.pop();
                    if line.ends_with('\r') {
                        line.pop();
                    }
                }
                (line.len(), len != 0)
            });
        self.sources_mut()[slot] = Some(source);
        self.lines_mut()[slot] = Some(line);
        result
    }
''')
fn(G, L, 'close_source', '''
    fn close_source(&mut self) {
        let id = self.s_stack().pop();
        let known = id > 0 && (id as usize) <= self.sources().len() && self.sources()[id as usize - 1].is_some();
        if id == self.source_id() || !known {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        self.sources_mut()[id as usize - 1] = None;
    }
''')
fn(G, L, 'open_source', '''
    fn open_source(&mut self) {
        let (caddr, u, id) = self.s_stack().pop3();
        let (start, len) = (caddr as usize, u as usize);
        let (low, high) = (self.data_space().start(), self.data_space().limit());
        if start < low || start > high || len > high - start {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        if id <= 0 || id as usize > self.files().len() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let file = match self.files_mut()[id as usize - 1].take() {
            Some(file) => file,
            None => {
                self.abort_with(INVALID_NUMERIC_ARGUMENT);
                return;
            }
        };
        let path = unsafe { self.data_space().str_from_raw_parts(start, len) }.to_string();
        let source = Source {
            reader: BufReader::new(file),
            path,
        };
        let free = self.sources().iter().position(Option::is_none);
        let sid = match free {
            Some(sid) => {
                self.sources_mut()[sid] = Some(source);
                sid
            }
            None => {
                self.sources_mut().push(Some(source));
                self.lines_mut().push(Some(String::with_capacity(128)));
                self.sources().len() - 1
            }
        };
        self.s_stack().push(sid as isize + 1);
    }
''')
fn(G, L, 'p_load_line', '''
    fn p_load_line(&mut self) {
        let id = self.s_stack().pop() as usize;
        match self.load_line(id) {
            Ok((len, true)) => self.s_stack().push2(len as isize, -1),
            Ok((len, false)) => self.s_stack().push2(len as isize, 0),
            Err(e) => self.abort_with(e),
        }
    }
''')
fn(G, F, 'file_size', '''
    fn file_size(&mut self) {
        let fileid = self.s_stack().pop();
        let size = if fileid > 0 && (fileid as usize) <= self.files().len() {
            match self.files()[fileid as usize - 1].as_ref() {
                Some(f) => f
                    .metadata()
                    .map_err(|_| FILE_IO_EXCEPTION)
                    .map(|m| m.len())
                    .and_then(|n| {
                        if n <= isize::max_value() as u64 {
                            Ok(n as isize)
                        } else {
                            Err(RESULT_OUT_OF_RANGE)
                        }
                    }),
                None => Err(INVALID_NUMERIC_ARGUMENT),
            }
        } else {
            Err(INVALID_NUMERIC_ARGUMENT)
        };
        match size {
            Ok(n) => self.s_stack().push3(n, 0, 0),
            Err(e) => self.s_stack().push3(-1, -1, e.into()),
        }
    }
''')
fn(G, F, 'close_file', '''
    fn close_file(&mut self) {
        let fileid = self.s_stack().pop();
        let open = fileid > 0
            && self
                .files()
                .get(fileid as usize - 1)
                .map_or(false, |f| f.is_some());
        let ior = if open {
            self.files_mut()[fileid as usize - 1] = None;
            0
        } else {
            INVALID_NUMERIC_ARGUMENT.into()
        };
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'delete_file', '''
    fn delete_file(&mut self) {
        let (caddr, u) = self.s_stack().pop2();
        let (caddr, u) = (caddr as usize, u as usize);
        let (start, limit) = (self.data_space().start(), self.data_space().limit());
        let ior: isize = if u > PATH_NAME_MAX_LEN {
            INVALID_NUMERIC_ARGUMENT.into()
        } else if caddr < start || limit < caddr || limit - caddr < u {
            INVALID_MEMORY_ADDRESS.into()
        } else {
            let path = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
            if fs::remove_file(path).is_ok() {
                0
            } else {
                FILE_IO_EXCEPTION.into()
            }
        };
        self.s_stack().push(ior);
    }
''')
fn(G, F, 'read_file', '''
    fn read_file(&mut self) {
        let (caddr, u1, fileid) = self.s_stack().pop3();
        let (caddr, u1, fileid) = (caddr as usize, u1 as usize, fileid as usize);
        if fileid == 0 || fileid > self.files().len() {
            self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
            return;
        }
        let taken = self.files_mut()[fileid - 1].take();
        if let Some(mut file) = taken {
            let (start, limit) = (self.data_space().start(), self.data_space().limit());
            if caddr < start || caddr > limit || u1 > limit - caddr {
                self.s_stack().push2(0, INVALID_MEMORY_ADDRESS.into());
            } else {
                let read = {
                    let buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                    file.read(buf)
                };
                match read {
                    Ok(n) => self.s_stack().push2(n as isize, 0),
                    Err(_) => self.s_stack().push2(0, FILE_IO_EXCEPTION.into()),
                }
            }
            self.files_mut()[fileid - 1] = Some(file);
        } else {
            self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
        }
    }
''')
fn(G, F, 'write_file', '''
    fn write_file(&mut self) {
        let (caddr, u, fileid) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u = u as usize;
        let mut ior: isize = INVALID_NUMERIC_ARGUMENT.into();
        if fileid > 0 && fileid as usize - 1 < self.files().len() {
            let slot = fileid as usize - 1;
            if let Some(mut f) = self.files_mut()[slot].take() {
                let inside = {
                    let ds = self.data_space();
                    ds.start() <= caddr && caddr <= ds.limit() && u <= ds.limit() - caddr
                };
                ior = if !inside {
                    INVALID_MEMORY_ADDRESS.into()
                } else {
                    let buf = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
                    match f.write_all(buf) {
                        Ok(()) => 0,
                        Err(_) => FILE_IO_EXCEPTION.into(),
                    }
                };
                self.files_mut()[slot] = Some(f);
            }
        }
        self.s_stack().push(ior);
    }
''')
txt(G, P, '''    let mut sign = 1;
    let mut bytes = input;
    if bytes.len() >= 1 {
        match bytes[0] {
            b'+' => {
                bytes = &bytes[1..];
            }
            b'-' => {
                sign = -1;
                bytes = &bytes[1..];
            }
            _ => {
                // Do nothing.
            }
        }
    }
    IResult::Done(&bytes, sign)
''', '''    match input.first() {
        Some(b'+') => IResult::Done(&input[1..], 1),
        Some(b'-') => IResult::Done(&input[1..], -1),
        _ => IResult::Done(input, 1),
    }
''')
txt(G, P, '''    let mut base = default_base;
    let mut bytes = input;
    if bytes.len() >= 1 {
        match bytes[0] {
            b'%' => {
                base = 2;
                bytes = &bytes[1..];
            }
            b'#' => {
                base = 10;
                bytes = &bytes[1..];
            }
            b'$' => {
                base = 16;
                bytes = &bytes[1..];
            }
            _ => {
                // Do nothing.
            }
        }
    }
    IResult::Done(&bytes, base)
''', '''    let prefix = match input.first() {
        Some(&b'%') => Some(2),
        Some(&b'#') => Some(10),
        Some(&b'$') => Some(16),
        _ => None,
    };
    match prefix {
        Some(base) => IResult::Done(&input[1..], base),
        None => IResult::Done(input, default_base),
    }
''')
txt(G, P, '''    let mut len = 0;
    let mut bytes = input;
    let mut value = 0isize;
    for c in bytes.iter() {
        let d;
        if b'0' <= *c && *c <= b'9' {
            d = (*c - b'0') as isize;
        } else if b'a' <= *c && *c <= b'f' {
            d = (*c - b'a') as isize + 10;
        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        if d >= base {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        // Allow wrapping for integer.
        value = value.wrapping_mul(base).wrapping_add(d);
        len = len + 1;
    }
    if len == 0 {
        // A number needs at least one digit.
        return IResult::Err(RESULT_OUT_OF_RANGE);
    }
    bytes = &bytes[len..];
    IResult::Done(bytes, value)
''', '''    if input.is_empty() {
        // A number needs at least one digit.
        return IResult::Err(RESULT_OUT_OF_RANGE);
    }
    let mut value = 0isize;
    for &c in input {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return IResult::Err(RESULT_OUT_OF_RANGE),
        };
        let d = isize::from(d);
        if d >= base {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        // Allow wrapping for integer.
        value = value.wrapping_mul(base).wrapping_add(d);
    }
    IResult::Done(&input[input.len()..], value)
''')
txt(G, P, '''    if input.len() == 3 && input[0] == 39u8 && input[2] == 39u8 {
        IResult::Done(&input[3..], input[1] as isize)
    } else {
        IResult::Err(RESULT_OUT_OF_RANGE)
    }
''', '''    match input {
        &[b'\\'', c, b'\\''] => IResult::Done(&input[3..], isize::from(c)),
        _ => IResult::Err(RESULT_OUT_OF_RANGE),
    }
''')
txt(G, P, '''    if input.len() >= 1 && input[0] == ascii {
        IResult::Done(&input[1..], true)
    } else {
        IResult::Done(input, false)
    }
''', '''    let found = input.first() == Some(&ascii);
    IResult::Done(&input[found as usize..], found)
''')
