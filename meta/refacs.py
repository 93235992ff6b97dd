"""behaviour-preserving edits: (group, file, function or None, replacement).  With a function name the whole item is
replaced; with a (old, new) pair the text is."""
import textwrap
R = []


def fn(group, file, name, new):
    if new is None:
        return
    R.append((group, file, name, textwrap.indent(textwrap.dedent(new).strip('\n'), '    ') + '\n'))


def txt(group, file, old, new):
    R.append((group, file, None, (old, new)))


C, M, P, F, L, O, T, FL, X = ('src/core.rs', 'src/memory.rs', 'src/parser.rs', 'src/file_access.rs', 'src/loader.rs', 'src/output.rs',
                              'src/tools.rs', 'src/float.rs', 'core.fth')
# ---------------------------------------------------------------- group A
fn('A', C, 'push', '''
    /// Push word `w` into list.
    fn push(&mut self, name: &str, mut w: Word<Target>) {
        w.hash = Self::hash(name);
        let index = self.words.len();
        let bucket = w.hash as usize % BUCKET_SIZE;
        w.link = std::mem::replace(&mut self.buckets[bucket], index);
        self.words.push(w);
        self.last = index;
    }
''')
fn('A', C, 'push2', '''
    fn slot(&self, depth: u8) -> usize {
        self.len.wrapping_sub(depth) as usize
    }

    pub fn push2(&mut self, v1: T, v2: T) {
        self.push(v1);
        self.push(v2);
    }
''')
fn('A', C, 'pop', '''
    pub fn pop(&mut self) -> T {
        self.len = self.len.wrapping_sub(1);
        self.inner[self.len as usize]
    }
''')
fn('A', C, 'pop3', '''
    pub fn pop3(&mut self) -> (T, T, T) {
        let (a, b, c) = (self.inner[self.slot(3)], self.inner[self.slot(2)], self.inner[self.slot(1)]);
        self.len = self.len.wrapping_sub(3);
        (a, b, c)
    }
''')
fn('A', C, 'swap', '''
    fn swap(&mut self) {
        let (n, t) = self.s_stack().pop2();
        self.s_stack().push2(t, n);
    }
''')
fn('A', C, 'less_than', '''
    fn less_than(&mut self) {
        let (n, t) = self.s_stack().pop2();
        let flag = match n < t {
            true => TRUE,
            false => FALSE,
        };
        self.s_stack().push(flag);
    }
''')
fn('A', C, 'zero_less', '''
    fn zero_less(&mut self) {
        let t = self.s_stack().pop();
        self.s_stack().push(-((t < 0) as isize));
    }
''')
fn('A', C, 'within', '''
    fn within(&mut self) {
        let (x1, x2, x3) = self.s_stack().pop3();
        let mut flag = FALSE;
        if x2 <= x1 {
            if x1 < x3 {
                flag = TRUE;
            }
        }
        self.s_stack().push(flag);
    }
''')
fn('A', C, 'fetch', '''
    fn cell_in_range(&self, addr: usize) -> bool {
        let space = self.data_space_const();
        space.start() < addr && addr <= space.limit() - mem::size_of::<isize>()
    }

    fn fetch(&mut self) {
        let t = self.s_stack().pop() as usize;
        if !self.cell_in_range(t) {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        let value = unsafe { self.data_space().get_isize(t) };
        self.s_stack().push(value);
    }
''')
fn('A', C, 'store', '''
    fn store(&mut self) {
        let (n, t) = self.s_stack().pop2();
        let t = t as usize;
        if self.cell_in_range(t) {
            unsafe { self.data_space().put_isize(n, t) };
        } else {
            self.abort_with(INVALID_MEMORY_ADDRESS);
        }
    }
''')
fn('A', C, 'parse_word', '''
    fn parse_word(&mut self) {
        let mut last_token = self.last_token().take().expect("token");
        last_token.clear();
        if let Some(input_buffer) = self.input_buffer().take() {
            let index = self.state().source_index;
            if let Some(source) = input_buffer.get(index..) {
                let mut cnt = source.len();
                for (idx, ch) in source.char_indices() {
                    match ch {
                        '\\t' | '\\n' | '\\r' | ' ' => {
                            if last_token.is_empty() {
                                continue;
                            }
                            cnt = idx;
                            break;
                        }
                        _ => last_token.push(ch),
                    }
                }
                self.state().source_index = index + cnt;
            }
            self.set_input_buffer(input_buffer);
        }
        self.set_last_token(last_token);
    }
''')
fn('A', C, 'parse', '''
    fn parse(&mut self) {
        let input_buffer = self.input_buffer().take();
        let v = self.s_stack().pop();
        let mut last_token = self.last_token().take().expect("token");
        last_token.clear();
        let start = self.state().source_index;
        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(start..)) {
            let mut cnt = source.len();
            let mut char_indices = source.char_indices();
            while let Some((_, ch)) = char_indices.next() {
                if ch as isize == v {
                    if let Some((idx, _)) = char_indices.next() {
                        cnt = idx;
                    }
                    break;
                }
                last_token.push(ch);
            }
            self.state().source_index = start + cnt;
        }
        self.set_last_token(last_token);
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
    }
''')
fn('A', C, '_skip', '''
    fn _skip(&mut self) {
        let input_buffer = self.input_buffer().take();
        let v = self.s_stack().pop();
        if let Some(source) = input_buffer
            .as_ref()
            .and_then(|b| b.get(self.state().source_index..))
        {
            let mut cnt = 0;
            for ch in source.chars() {
                if ch as isize != v {
                    break;
                }
                cnt += ch.len_utf8();
            }
            self.state().source_index += cnt;
        }
        if let Some(input_buffer) = input_buffer {
            self.set_input_buffer(input_buffer);
        }
    }
''')
fn('A', C, 'find', '''
    fn find(&mut self, name: &str) -> Option<usize> {
        let hash = Wordlist::<Self>::hash(name);
        let mut w = self.wordlist().buckets[hash as usize % BUCKET_SIZE];
        while w != 0 {
            let candidate = {
                let word = &self.wordlist()[w];
                !word.is_hidden() && word.hash == hash
            };
            if candidate {
                let nfa = self.wordlist()[w].nfa();
                let w_name = unsafe { self.data_space().get_str(nfa) };
                if name.eq_ignore_ascii_case(w_name) {
                    return Some(w);
                }
            }
            w = self.wordlist()[w].link;
        }
        None
    }
''')
fn('A', C, 'run', '''
    fn run(&mut self) {
        loop {
            let ip = self.state().instruction_pointer;
            if !(self.data_space().start() <= ip
                && ip <= self.data_space().limit() - mem::size_of::<isize>())
            {
                break;
            }
            let w = unsafe { self.data_space().get_isize(ip) as usize };
            self.state().instruction_pointer += mem::size_of::<isize>();
            self.execute_word(w);
        }
    }
''')
fn('A', C, 'pause', '''
    fn pause(&mut self) {
        let mut next = self.current_task();
        loop {
            next += 1;
            if next == NUM_TASKS {
                next = 0;
            }
            if self.awake(next) {
                break;
            }
        }
        self.set_current_task(next);
    }
''')
fn('A', C, 'abort_with', '''
    fn call_handler(&mut self) {
        let h = self.handler();
        let wp = self.state().word_pointer;
        self.state().aborted_word_pointer = wp;
        if h < self.wordlist().len() {
            self.execute_word(h);
        }
    }

    fn abort_with(&mut self, e: Exception) {
        self.set_error(Some(e));
        self.clear_stacks();
        self.call_handler();
    }
''')
fn('A', C, 'check_stacks', '''
    fn check_stacks(&mut self) {
        let problem = if self.s_stack().overflow() {
            Some(STACK_OVERFLOW)
        } else if self.s_stack().underflow() {
            Some(STACK_UNDERFLOW)
        } else if self.r_stack().overflow() {
            Some(RETURN_STACK_OVERFLOW)
        } else if self.r_stack().underflow() {
            Some(RETURN_STACK_UNDERFLOW)
        } else if self.c_stack().overflow() || self.c_stack().underflow() {
            Some(CONTROL_STRUCTURE_MISMATCH)
        } else if self.f_stack().overflow() {
            Some(FLOATING_POINT_STACK_OVERFLOW)
        } else if self.f_stack().underflow() {
            Some(FLOATING_POINT_STACK_UNDERFLOW)
        } else {
            None
        };
        if let Some(e) = problem {
            self.abort_with(e);
        }
    }
''')
fn('A', C, 'token_empty', '''
    fn token_empty(&mut self) {
        let empty = self.last_token().as_ref().map_or(true, |t| t.is_empty());
        self.s_stack().push(if empty { TRUE } else { FALSE });
    }
''')
fn('A', C, 'imm_if', '''
    fn zero_branch_placeholder(&mut self) -> usize {
        self.compile_zero_branch(0)
    }

    fn patch_branch(&mut self, part: usize, here: usize) {
        unsafe {
            self.data_space()
                .put_isize(here as isize, part - mem::size_of::<isize>());
        }
    }

    fn imm_if(&mut self) {
        let here = self.zero_branch_placeholder();
        self.c_stack().push(Control::If(here));
    }
''')
fn('A', C, 'imm_else', '''
    fn imm_else(&mut self) {
        if let Control::If(if_part) = self.c_stack().pop() {
            if !self.c_stack().underflow() {
                let here = self.compile_branch(0);
                self.patch_branch(if_part, here);
                self.c_stack().push(Control::Else(here));
                return;
            }
        }
        self.abort_with(CONTROL_STRUCTURE_MISMATCH);
    }
''')
fn('A', C, 'imm_then', '''
    fn imm_then(&mut self) {
        let branch_part = match self.c_stack().pop() {
            Control::If(part) | Control::Else(part) => part,
            _ => return self.abort_with(CONTROL_STRUCTURE_MISMATCH),
        };
        if self.c_stack().underflow() {
            return self.abort_with(CONTROL_STRUCTURE_MISMATCH);
        }
        let here = self.data_space().here();
        self.patch_branch(branch_part, here);
    }
''')
fn('A', C, 'imm_loop', '''
    fn resolve_loop(&mut self, idx: usize) {
        let do_part = match self.c_stack().pop() {
            Control::Do(do_part, _) => do_part,
            _ => {
                self.abort_with(CONTROL_STRUCTURE_MISMATCH);
                return;
            }
        };
        if self.c_stack().underflow() {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
            return;
        }
        self.compile_word(idx);
        self.data_space().compile_isize(do_part as isize);
        let here = self.data_space().here();
        self.patch_branch(do_part, here);
    }

    fn imm_loop(&mut self) {
        let idx = self.references().idx_loop;
        self.resolve_loop(idx);
    }
''')
fn('A', C, 'imm_plus_loop', '''
    fn imm_plus_loop(&mut self) {
        let idx = self.references().idx_plus_loop;
        self.resolve_loop(idx);
    }
''')
fn('A', C, 'leave_part', '''
    fn leave_part(&mut self) -> Option<usize> {
        let mut i = self.c_stack().len();
        while i > 0 {
            i -= 1;
            if let Control::Do(_, leave_part) = self.c_stack()[i] {
                return Some(leave_part);
            }
        }
        None
    }
''')
fn('A', C, 'compile_token', '''
    fn evaluate_number(&mut self, token: &str) -> bool {
        self.set_error(None);
        self.evaluate_integer(token);
        if self.last_error().is_none() {
            return true;
        }
        self.set_error(None);
        self.evaluate_float(token);
        self.last_error().is_none()
    }

    fn compile_token(&mut self) {
        let last_token = self.last_token().take().expect("token");
        if let Some(found_index) = self.find(&last_token) {
            self.set_last_token(last_token);
            if self.wordlist()[found_index].is_immediate() {
                self.execute_word(found_index);
            } else {
                let compilation_semantics = self.wordlist()[found_index].compilation_semantics;
                compilation_semantics(self, found_index);
            }
        } else {
            let done = self.evaluate_number(&last_token);
            self.set_last_token(last_token);
            if !done {
                self.abort_with(UNDEFINED_WORD);
            }
        }
    }
''')
fn('A', C, 'interpret_token', '''
    fn interpret_token(&mut self) {
        let last_token = self.last_token().take().expect("last token");
        if let Some(found_index) = self.find(&last_token) {
            self.set_last_token(last_token);
            if self.wordlist()[found_index].is_compile_only() {
                self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD);
            } else {
                self.execute_word(found_index);
            }
        } else {
            let done = self.evaluate_number(&last_token);
            self.set_last_token(last_token);
            if !done {
                self.abort_with(UNDEFINED_WORD);
            }
        }
    }
''')
fn('A', C, 'evaluate_input', '''
    fn evaluate_input(&mut self) {
        loop {
            self.parse_word();
            let done = self.last_token().as_ref().map_or(false, |t| t.is_empty());
            if done {
                return;
            }
            if self.state().is_compiling {
                self.compile_token();
            } else {
                self.interpret_token();
            }
            if self.last_error().is_some() {
                return;
            }
            self.run();
            self.check_stacks();
            if self.last_error().is_some() {
                return;
            }
        }
    }
''')
fn('A', C, 'evaluate_integer', '''
    fn number_found(&mut self, value: isize) {
        if self.state().is_compiling {
            self.compile_integer(value);
        } else {
            self.s_stack().push(value);
        }
    }

    fn evaluate_integer(&mut self, token: &str) {
        let base_addr = self.data_space().system_variables().base_addr();
        let default_base = unsafe { self.data_space().get_isize(base_addr) };
        let bytes = token.as_bytes();
        if let parser::IResult::Done(_, c) = parser::quoted_char(bytes) {
            self.number_found(c);
            return;
        }
        let (bytes, base) = match parser::base(bytes, default_base) {
            parser::IResult::Done(bytes, base) => (bytes, base),
            parser::IResult::Err(e) => {
                self.set_error(Some(e));
                return;
            }
        };
        let (bytes, sign) = match parser::sign(bytes) {
            parser::IResult::Done(bytes, sign) => (bytes, sign),
            parser::IResult::Err(e) => {
                self.set_error(Some(e));
                return;
            }
        };
        match parser::uint_in_base(bytes, base) {
            parser::IResult::Done(bytes, value) if bytes.is_empty() => {
                self.number_found(sign.wrapping_mul(value));
            }
            parser::IResult::Done(_, _) => self.set_error(Some(UNSUPPORTED_OPERATION)),
            parser::IResult::Err(e) => self.set_error(Some(e)),
        }
    }
''')
fn('A', C, 'evaluate_float', '''
    fn evaluate_float(&mut self, token: &str) {
        if let Err(e) = self.try_float(token) {
            self.set_error(Some(e));
        }
    }

    fn try_float(&mut self, token: &str) -> Result<(), Exception> {
        fn done<'a, T>(r: parser::IResult<'a, T>) -> Result<(&'a [u8], T), Exception> {
            match r {
                parser::IResult::Done(input, value) => Ok((input, value)),
                parser::IResult::Err(e) => Err(e),
            }
        }
        let (bytes, significand_sign) = done(parser::sign(token.as_bytes()))?;
        let (rest, integer_part) = done(parser::uint(bytes))?;
        if rest.len() == bytes.len() {
            return Err(UNSUPPORTED_OPERATION);
        }
        let (bytes, fraction_part) = done(parser::fraction(rest))?;
        let (mut rest, mut found) = done(parser::ascii(bytes, b'E'))?;
        if !found {
            let r = done(parser::ascii(bytes, b'e'))?;
            rest = r.0;
            found = r.1;
        }
        if !found {
            return Err(UNSUPPORTED_OPERATION);
        }
        let (rest, exponent_sign) = done(parser::sign(rest))?;
        let (rest, exponent_part) = done(parser::uint(rest))?;
        if !rest.is_empty() || self.references().idx_flit == 0 {
            return Err(UNSUPPORTED_OPERATION);
        }
        let exponent = exponent_sign
            .wrapping_mul(exponent_part)
            .max(i32::min_value() as isize)
            .min(i32::max_value() as isize);
        let value = (significand_sign as f64)
            * (integer_part as f64 + fraction_part)
            * (10.0f64).powi(exponent as i32);
        if self.state().is_compiling {
            self.compile_float(value);
        } else {
            self.f_stack().push(value);
        }
        Ok(())
    }
''')
fn('A', M, 'put_cstr', '''
    fn put_cstr(&mut self, s: &str, pos: usize) {
        let bytes = s.as_bytes();
        let len = bytes.len().min(255);
        if pos + len + mem::size_of::<usize>() > self.limit() {
            panic!("Error: put_cstr while space is full.");
        }
        unsafe {
            self.put_u8(len as u8, pos);
            for i in 0..len {
                self.put_u8(bytes[i], pos + 1 + i);
            }
        }
    }
''')
fn('A', M, 'compile_str', '''
    fn compile_str(&mut self, s: &str) -> usize {
        let here = self.here();
        if here + s.len() + mem::size_of::<usize>() <= self.limit() {
            self.compile_usize(s.len());
            for i in 0..s.len() {
                self.compile_u8(s.as_bytes()[i]);
            }
            here
        } else {
            panic!("Error: compile_str while space is full.");
        }
    }
''')
fn('A', F, 'file_size', '''
    fn file_slot(&mut self, fileid: isize) -> Option<usize> {
        if fileid > 0 && (fileid as usize - 1) < self.files().len() {
            Some(fileid as usize - 1)
        } else {
            None
        }
    }

    fn file_size(&mut self) {
        let fileid = self.s_stack().pop();
        let result = match self.file_slot(fileid) {
            None => Err(INVALID_NUMERIC_ARGUMENT),
            Some(i) => match self.files()[i] {
                None => Err(INVALID_NUMERIC_ARGUMENT),
                Some(ref f) => match f.metadata() {
                    Err(_) => Err(FILE_IO_EXCEPTION),
                    Ok(m) => {
                        if m.len() > isize::max_value() as u64 {
                            Err(RESULT_OUT_OF_RANGE)
                        } else {
                            Ok(m.len() as isize)
                        }
                    }
                },
            },
        };
        match result {
            Ok(n) => self.s_stack().push3(n, 0, 0),
            Err(e) => self.s_stack().push3(-1, -1, e.into()),
        }
    }
''')
fn('A', F, 'close_file', '''
    fn close_file(&mut self) {
        let fileid = self.s_stack().pop();
        let ior = match self.file_slot(fileid) {
            Some(i) => match self.files_mut()[i].take() {
                Some(_) => 0,
                None => INVALID_NUMERIC_ARGUMENT.into(),
            },
            None => INVALID_NUMERIC_ARGUMENT.into(),
        };
        self.s_stack().push(ior);
    }
''')
fn('A', F, 'open_file', '''
    fn in_data_space(&mut self, caddr: usize, u: usize) -> bool {
        let (start, limit) = (self.data_space().start(), self.data_space().limit());
        start <= caddr && caddr <= limit && u <= limit - caddr
    }

    fn install_file(&mut self, file: fs::File) -> isize {
        for i in 0..self.files().len() {
            if self.files()[i].is_none() {
                self.files_mut()[i] = Some(file);
                return i as isize + 1;
            }
        }
        self.files_mut().push(Some(file));
        self.files().len() as isize
    }

    fn open_file(&mut self) {
        let (caddr, u, fam) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u = u as usize;
        if u > PATH_NAME_MAX_LEN || fam < 0 || fam > 2 {
            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
            return;
        }
        if !self.in_data_space(caddr, u) {
            self.s_stack().push2(-1, INVALID_MEMORY_ADDRESS.into());
            return;
        }
        let mut options = OpenOptions::new();
        options.read(fam != 1).write(fam != 0);
        let opened = {
            let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
            options.open(&path_name)
        };
        match opened {
            Err(_) => self.s_stack().push2(-1, FILE_IO_EXCEPTION.into()),
            Ok(file) => {
                let id = self.install_file(file);
                self.s_stack().push2(id, 0);
            }
        }
    }
''')
fn('A', F, 'read_file', '''
    fn read_file(&mut self) {
        let (caddr, u1, fileid) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u1 = u1 as usize;
        let slot = match self.file_slot(fileid) {
            Some(i) if self.files()[i].is_some() => i,
            _ => {
                self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
                return;
            }
        };
        if !self.in_data_space(caddr, u1) {
            self.s_stack().push2(0, INVALID_MEMORY_ADDRESS.into());
            return;
        }
        let mut file = self.files_mut()[slot].take().unwrap();
        let result = {
            let buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
            file.read(buf)
        };
        self.files_mut()[slot] = Some(file);
        match result {
            Ok(u2) => self.s_stack().push2(u2 as isize, 0),
            Err(_) => self.s_stack().push2(0, FILE_IO_EXCEPTION.into()),
        }
    }
''')
fn('A', F, 'write_file', '''
    fn write_file(&mut self) {
        let (caddr, u, fileid) = self.s_stack().pop3();
        let caddr = caddr as usize;
        let u = u as usize;
        let ior = match self.file_slot(fileid) {
            None => INVALID_NUMERIC_ARGUMENT.into(),
            Some(i) => {
                if let Some(mut f) = self.files_mut()[i].take() {
                    let ior = if self.in_data_space(caddr, u) {
                        let buf = unsafe { self.data_space().buffer_from_raw_parts(caddr, u) };
                        if f.write_all(buf).is_ok() {
                            0
                        } else {
                            FILE_IO_EXCEPTION.into()
                        }
                    } else {
                        INVALID_MEMORY_ADDRESS.into()
                    };
                    self.files_mut()[i] = Some(f);
                    ior
                } else {
                    INVALID_NUMERIC_ARGUMENT.into()
                }
            }
        };
        self.s_stack().push(ior);
    }
''')
fn('A', L, 'load_line', '''
    fn load_line(&mut self, source_id: usize) -> Result<(usize, bool), Exception> {
        if source_id == 0 || source_id > self.sources().len() {
            return Err(INVALID_NUMERIC_ARGUMENT);
        }
        let i = source_id - 1;
        let mut source = match self.sources_mut()[i].take() {
            Some(s) => s,
            None => return Err(INVALID_NUMERIC_ARGUMENT),
        };
        let mut line = match self.lines_mut()[i].take() {
            Some(line) => line,
            None => {
                self.sources_mut()[i] = Some(source);
                return Err(INVALID_NUMERIC_ARGUMENT);
            }
        };
        line.clear();
        let result = match source.reader.read_line(&mut line) {
            Err(_) => Err(FILE_IO_EXCEPTION),
            Ok(len) => {
                let not_eof = len != 0;
                if line.ends_with('\\n') {
                    line.pop();
                    if line.ends_with('\\r') {
                        line.pop();
                    }
                }
                Ok((line.len(), not_eof))
            }
        };
        self.sources_mut()[i] = Some(source);
        self.lines_mut()[i] = Some(line);
        result
    }
''')
fn('A', L, 'close_source', '''
    fn close_source(&mut self) {
        let id = self.s_stack().pop();
        if self.source_id() != id && id > 0 && id <= self.sources().len() as isize {
            if self.sources_mut()[id as usize - 1].take().is_some() {
                return;
            }
        }
        self.abort_with(INVALID_NUMERIC_ARGUMENT);
    }
''')
fn('A', O, 'push_output', '''
    fn push_output(&mut self, text: &str) {
        if let Some(buffer) = self.output_buffer().as_mut() {
            buffer.push_str(text);
        }
    }
''')
fn('A', O, 'emit', '''
    fn emit(&mut self) {
        let ch = self.s_stack().pop() as u8 as char;
        if let Some(ref mut buffer) = *self.output_buffer() {
            buffer.push(ch);
        }
    }
''')
txt('A', X, ': max ( n1 n2 -- n3 )   2dup < if nip else drop then ;', ': max ( n1 n2 -- n3 )   2dup > if drop else nip then ;')
txt('A', X, ': tuck ( n1 n2 -- n2 n1 n2 )   swap over ;', ': tuck ( n1 n2 -- n2 n1 n2 )   dup -rot ;')
txt('A', X, ': +! ( n|u a-addr -- )   dup @ rot + swap ! ;', ': +! ( n|u a-addr -- )   swap over @ + swap ! ;')
txt('A', X, ': count ( a -- a+1 n )  dup c@  swap 1 +  swap ;', ': count ( a -- a+1 n )  dup 1+ swap c@ ;')
txt('A', X, ': 2@ ( a-addr -- x1 x2 )   dup cell+ @ swap @ ;', ': 2@ ( a-addr -- x1 x2 )   dup @ swap cell+ @ swap ;')
txt('A', X, ': stop   me suspend pause ;', ': sleep-me ( -- )   me suspend ;\n: stop   sleep-me pause ;')
# ---------------------------------------------------------------- group B
fn('B', C, 'hash', '''
    fn hash(name: &str) -> u32 {
        name.bytes().fold(5381u32, |hash, c| {
            hash.wrapping_mul(33)
                .wrapping_add(c.to_ascii_lowercase() as u32)
        })
    }
''')
fn('B', C, 'truncate', '''
    /// Remove the `i`th word and all words behind it.
    fn truncate(&mut self, i: usize) {
        self.words.truncate(i);
        let remaining = self.words.len();
        self.last = remaining - 1;
    }
''')
fn('B', C, 'find_xt', '''
    pub fn find_xt(&self, addr: usize) -> Option<usize> {
        match self.words.binary_search_by(|w| w.nfa().cmp(&addr)) {
            Ok(xt) => Some(xt),
            Err(0) => None,
            Err(xt) => Some(xt - 1),
        }
    }
''')
fn('B', C, 'underflow', '''
    pub fn underflow(&self) -> bool {
        let below = self.inner[255] != self.canary;
        below || self.len >= 129
    }
''')
fn('B', C, 'overflow', '''
    pub fn overflow(&self) -> bool {
        if self.inner[64] != self.canary {
            return true;
        }
        match self.len {
            65..=128 => true,
            _ => false,
        }
    }
''')
fn('B', C, 'reset', '''
    pub fn reset(&mut self) {
        let canary = self.canary;
        for cell in self.inner.iter_mut() {
            *cell = canary;
        }
        self.len = 0;
    }
''')
fn('B', C, 'push', None)
fn('B', C, 'lit', '''
    fn next_cell(&mut self) -> isize {
        let ip = self.state().instruction_pointer;
        let v = unsafe { self.data_space().get_isize(ip) };
        self.state().instruction_pointer = ip + mem::size_of::<isize>();
        v
    }

    fn lit(&mut self) {
        let v = self.next_cell();
        self.s_stack().push(v);
    }
''')
fn('B', C, 'branch', '''
    fn branch(&mut self) {
        let target = self.next_cell();
        self.state().instruction_pointer = target as usize;
    }
''')
fn('B', C, 'zero_branch', '''
    fn zero_branch(&mut self) {
        let v = self.s_stack().pop();
        let target = self.next_cell();
        if v == 0 {
            self.state().instruction_pointer = target as usize;
        }
    }
''')
fn('B', C, '_do', '''
    fn enter_loop(&mut self, limit: isize, first: isize) {
        let ip = self.state().instruction_pointer;
        let rt = first.wrapping_sub(limit).wrapping_add(isize::min_value());
        self.r_stack().push3(ip as isize, first.wrapping_sub(rt), rt);
        self.state().instruction_pointer = ip + mem::size_of::<isize>();
    }

    fn _do(&mut self) {
        let (limit, first) = self.s_stack().pop2();
        self.enter_loop(limit, first);
    }
''')
fn('B', C, '_qdo', '''
    fn _qdo(&mut self) {
        let (limit, first) = self.s_stack().pop2();
        if limit != first {
            self.enter_loop(limit, first);
        } else {
            self.branch();
        }
    }
''')
fn('B', C, '_loop', '''
    fn advance_loop(&mut self, step: isize) {
        let rt = self.r_stack().pop();
        let (sum, crossed) = rt.overflowing_add(step);
        if crossed {
            let _ = self.r_stack().pop2();
            self.state().instruction_pointer += mem::size_of::<isize>();
        } else {
            self.r_stack().push(sum);
            self.branch();
        }
    }

    fn _loop(&mut self) {
        self.advance_loop(1);
    }
''')
fn('B', C, '_plus_loop', '''
    fn _plus_loop(&mut self) {
        let step = self.s_stack().pop();
        self.advance_loop(step);
    }
''')
fn('B', C, 'unloop', '''
    fn unloop(&mut self) {
        self.r_stack().len = self.r_stack().len.wrapping_sub(3);
    }
''')
fn('B', C, 'imm_case', '''
    fn imm_case(&mut self) {
        let marker = Control::Case;
        self.c_stack().push(marker);
    }
''')
fn('B', C, 'imm_begin', '''
    fn imm_begin(&mut self) {
        let control = Control::Begin(self.data_space().here());
        self.c_stack().push(control);
    }
''')
fn('B', C, 'imm_until', '''
    fn pop_begin(&mut self) -> Option<usize> {
        match self.c_stack().pop() {
            Control::Begin(part) if !self.c_stack().underflow() => Some(part),
            _ => {
                self.abort_with(CONTROL_STRUCTURE_MISMATCH);
                None
            }
        }
    }

    fn imm_until(&mut self) {
        if let Some(part) = self.pop_begin() {
            self.compile_zero_branch(part);
        }
    }
''')
fn('B', C, 'imm_again', '''
    fn imm_again(&mut self) {
        if let Some(part) = self.pop_begin() {
            self.compile_branch(part);
        }
    }
''')
fn('B', C, 'imm_repeat', '''
    fn imm_repeat(&mut self) {
        if let (Control::Begin(begin_part), Control::While(while_part)) = self.c_stack().pop2() {
            if !self.c_stack().underflow() {
                let after = self.compile_branch(begin_part);
                let target = while_part - mem::size_of::<isize>();
                unsafe { self.data_space().put_isize(after as isize, target) };
                return;
            }
        }
        self.abort_with(CONTROL_STRUCTURE_MISMATCH);
    }
''')
fn('B', C, 'imm_goto', '''
    fn valid_label(&self, n: usize) -> bool {
        n != 0 && n < self.labels().capacity()
    }

    fn imm_goto(&mut self) {
        let n = self.s_stack().pop() as usize;
        if !self.valid_label(n) {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let pending = self.forward_bitset().contains(n as u32);
        if !pending && self.resolved_bitset().contains(n as u32) {
            let p = self.labels()[n];
            let _ = self.compile_branch(p);
            return;
        }
        let link = if pending { self.labels()[n] } else { 0 };
        let to_patch = self.compile_branch(link) - mem::size_of::<isize>();
        self.labels_mut()[n] = to_patch;
        if !pending {
            self.forward_bitset_mut().add(n as u32);
        }
    }
''')
fn('B', C, 'imm_label', '''
    fn imm_label(&mut self) {
        let n = self.s_stack().pop() as usize;
        if !self.valid_label(n) {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let here = self.data_space().here();
        if self.forward_bitset().contains(n as u32) {
            let mut p = self.labels()[n];
            while p != 0 {
                let next = unsafe { self.data_space().get_usize(p) };
                unsafe { self.data_space().put_isize(here as isize, p) };
                p = next;
            }
            self.forward_bitset_mut().remove(n as u32);
        } else if self.resolved_bitset().contains(n as u32) {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        self.labels_mut()[n] = here;
        self.resolved_bitset_mut().add(n as u32);
    }
''')
fn('B', C, 'activate', '''
    fn task_number(&mut self) -> Option<usize> {
        let i = self.s_stack().pop().wrapping_sub(1) as usize;
        if i < NUM_TASKS {
            Some(i)
        } else {
            None
        }
    }

    fn activate(&mut self) {
        if let Some(i) = self.task_number() {
            let ip = self.state().instruction_pointer;
            let current_task = self.current_task();
            self.set_awake(i, true);
            self.set_current_task(i);
            self.reset();
            self.state().instruction_pointer = ip;
            self.set_current_task(current_task);
        } else {
            let ip = self.r_stack().pop() as usize;
            self.state().instruction_pointer = ip;
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let ip = self.r_stack().pop() as usize;
        self.state().instruction_pointer = ip;
    }
''')
fn('B', C, 'suspend', '''
    fn suspend(&mut self) {
        match self.task_number() {
            Some(i) => self.set_awake(i, false),
            None => self.abort_with(INVALID_NUMERIC_ARGUMENT),
        }
    }
''')
fn('B', C, 'resume', '''
    fn resume(&mut self) {
        match self.task_number() {
            Some(i) => self.set_awake(i, true),
            None => self.abort_with(INVALID_NUMERIC_ARGUMENT),
        }
    }
''')
fn('B', C, 'char', '''
    fn char(&mut self) {
        self.parse_word();
        let first = self.last_token().as_ref().expect("token").chars().next();
        match first {
            Some(c) => self.s_stack().push(c as isize),
            None => self.abort_with(UNEXPECTED_END_OF_FILE),
        }
    }
''')
fn('B', C, 'tick', '''
    fn parse_xt(&mut self) -> Option<usize> {
        self.parse_word();
        let last_token = self.last_token().take().expect("last token");
        let found = self.find(&last_token);
        let empty = last_token.is_empty();
        self.set_last_token(last_token);
        if empty {
            self.abort_with(UNEXPECTED_END_OF_FILE);
            return None;
        }
        if found.is_none() {
            self.abort_with(UNDEFINED_WORD);
        }
        found
    }

    fn tick(&mut self) {
        if let Some(xt) = self.parse_xt() {
            self.s_stack().push(xt as isize);
        }
    }
''')
fn('B', C, 'bracket_tick', '''
    fn bracket_tick(&mut self) {
        if let Some(xt) = self.parse_xt() {
            self.compile_integer(xt as isize);
        }
    }
''')
fn('B', C, 'postpone', '''
    fn postpone(&mut self) {
        if let Some(xt) = self.parse_xt() {
            self.compile_integer(xt as isize);
            let idx = self.references().idx__postpone;
            self.compile_word(idx);
        }
    }
''')
fn('B', C, 'store_token', '''
    fn store_token(&mut self) {
        let c_addr = self.s_stack().pop() as usize;
        let (start, limit) = (self.data_space().start(), self.data_space().limit());
        let len = self
            .last_token()
            .as_ref()
            .map_or(mem::size_of::<u8>(), |t| t.len().min(255) + mem::size_of::<usize>());
        if c_addr < start || c_addr > limit || limit - c_addr < len {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        if let Some(mut t) = self.last_token().take() {
            self.data_space().put_cstr(&t, c_addr);
            t.clear();
            self.set_last_token(t);
        } else {
            unsafe { self.data_space().put_u8(0, c_addr) };
        }
    }
''')
fn('B', C, 'define', '''
    fn define(&mut self, action: fn(&mut Self), compilation_semantics: fn(&mut Self, usize)) {
        self.parse_word();
        let mut name = self.last_token().take().expect("last token");
        name.make_ascii_lowercase();
        if self.find(&name).is_some() {
            if let Some(buf) = self.output_buffer().as_mut() {
                buf.push_str("Redefining ");
                buf.push_str(&name);
            }
        }
        if name.is_empty() {
            self.set_last_token(name);
            self.abort_with(UNEXPECTED_END_OF_FILE);
            return;
        }
        let nfa = self.data_space().compile_str(&name);
        self.data_space().align();
        let dfa = self.data_space().here();
        self.wordlist_mut()
            .push(&name, Word::new(action, compilation_semantics, nfa, dfa));
        self.set_last_token(name);
    }
''')
fn('B', C, 'colon', '''
    fn colon(&mut self) {
        self.define(Core::nest, Core::compile_nest);
        if self.last_error().is_some() {
            return;
        }
        self.state().is_compiling = true;
        let def = self.wordlist().last;
        self.wordlist_mut()[def].set_hidden(true);
        self.compile_nest_code(def);
    }
''')
fn('B', C, 'unmark', '''
    fn unmark(&mut self) {
        let wp = self.state().word_pointer;
        let nfa = self.wordlist()[wp].nfa();
        let dfa = self.wordlist()[wp].dfa();
        for i in 0..BUCKET_SIZE {
            let cell = dfa + (i + 1) * mem::size_of::<usize>();
            let link = unsafe { self.data_space().get_usize(cell) };
            self.wordlist_mut().buckets[i] = link;
        }
        self.wordlist_mut().truncate(wp);
        self.data_space().truncate(nfa);
    }
''')
fn('B', C, 'xdoes', '''
    fn xdoes(&mut self) {
        let wp = self.state().word_pointer;
        let (dfa, doer) = (self.wordlist()[wp].dfa(), self.wordlist()[wp].doer);
        let ip = self.state().instruction_pointer;
        self.state().instruction_pointer = doer;
        self.r_stack().push(ip as isize);
        self.s_stack().push(dfa as isize);
    }
''')
fn('B', C, 'rot', '''
    fn rot(&mut self) {
        let (a, b, c) = self.s_stack().pop3();
        self.s_stack().push3(b, c, a);
    }
''')
fn('B', C, 'pick', '''
    fn pick(&mut self) {
        let t = self.s_stack().pop();
        let slen = self.s_stack().len;
        let x = self.s_stack()[slen.wrapping_sub(1).wrapping_sub(t as u8)];
        self.s_stack().push(x);
    }
''')
fn('B', C, 'two_over', '''
    fn two_over(&mut self) {
        let slen = self.s_stack().len;
        let x1 = self.s_stack()[slen.wrapping_sub(4)];
        let x2 = self.s_stack()[slen.wrapping_sub(3)];
        self.s_stack().push2(x1, x2);
    }
''')
fn('B', C, 'slash_mod', '''
    fn slash_mod(&mut self) {
        let (n, t) = self.s_stack().pop2();
        match t {
            0 => self.abort_with(DIVISION_BY_ZERO),
            _ => self.s_stack().push2(n.wrapping_rem(t), n.wrapping_div(t)),
        }
    }
''')
fn('B', C, 'abs', '''
    fn abs(&mut self) {
        let t = self.s_stack().pop();
        self.s_stack().push(if t < 0 { t.wrapping_neg() } else { t });
    }
''')
fn('B', C, 'p_move', '''
    fn p_move(&mut self) {
        let (addr1, addr2, u) = self.s_stack().pop3();
        if u <= 0 {
            return;
        }
        let (addr1, addr2, u) = (addr1 as usize, addr2 as usize, u as usize);
        let start = self.data_space().start();
        let limit = self.data_space().limit();
        let inside = |a: usize| start < a && a <= limit && u <= limit - a;
        if !(inside(addr1) && inside(addr2)) {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        unsafe {
            std::ptr::copy(addr1 as *const u8, addr2 as *mut u8, u);
        }
    }
''')
fn('B', C, 'error', '''
    fn error(&mut self) {
        let code = self.last_error().map_or(0, |e| e.into());
        self.s_stack().push(code);
    }
''')
fn('B', C, 'set_source_id', '''
    fn set_source_id(&mut self, id: isize) {
        let valid = if id > 0 {
            let i = id as usize - 1;
            i < self.sources().len() && self.sources()[i].is_some() && self.lines()[i].is_some()
        } else {
            id == 0
        };
        if valid {
            self.state().source_id = id;
        } else {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        }
    }
''')
fn('B', P, 'none', None)
fn('B', O, 'p_type', '''
    fn p_type(&mut self) {
        let (addr, len) = self.s_stack().pop2();
        if self.s_stack().underflow() {
            self.abort_with(STACK_UNDERFLOW);
            return;
        }
        let (caddr, len) = (addr as usize, len as usize);
        let limit = self.data_space().limit();
        if caddr < self.data_space().start() || caddr > limit || len > limit - caddr {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        if let Some(mut buffer) = self.output_buffer().take() {
            buffer.push_str(unsafe { self.data_space().str_from_raw_parts(caddr, len) });
            self.set_output_buffer(buffer);
        }
    }
''')
fn('B', L, 'dot_source_path', '''
    fn dot_source_path(&mut self) {
        let id = self.s_stack().pop();
        if id < 1 || id > self.sources().len() as isize {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let path = match self.sources()[id as usize - 1] {
            Some(ref s) => s.path.clone(),
            None => {
                self.abort_with(INVALID_NUMERIC_ARGUMENT);
                return;
            }
        };
        self.push_output(&path);
    }
''')
fn('B', L, 'open_source', '''
    fn open_source(&mut self) {
        let (caddr, u, id) = self.s_stack().pop3();
        let start = caddr as usize;
        let limit = self.data_space().limit();
        if start < self.data_space().start() || start > limit || u as usize > limit - start {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        let file = if id > 0 && id <= self.files().len() as isize {
            self.files_mut()[id as usize - 1].take()
        } else {
            None
        };
        let file = match file {
            Some(file) => file,
            None => {
                self.abort_with(INVALID_NUMERIC_ARGUMENT);
                return;
            }
        };
        let path = unsafe { self.data_space().str_from_raw_parts(start, u as usize) }.to_string();
        let source = Some(Source {
            reader: BufReader::new(file),
            path,
        });
        let sid = match self.sources().iter().position(Option::is_none) {
            Some(free) => {
                self.sources_mut()[free] = source;
                free + 1
            }
            None => {
                self.sources_mut().push(source);
                self.lines_mut().push(Some(String::with_capacity(128)));
                self.sources().len()
            }
        };
        self.s_stack().push(sid as isize);
    }
''')
fn('B', FL, 'fslash', '''
    fn fslash(&mut self) {
        let (n, t) = self.f_stack().pop2();
        self.f_stack().push(n / t);
    }
''')
fn('B', FL, 'fproximate', '''
    fn fproximate(&mut self) {
        let (x1, x2, x3) = self.f_stack().pop3();
        let close = if x3 > 0.0 {
            (x1 - x2).abs() < x3
        } else if x3 == 0.0 {
            x1 == x2
        } else {
            (x1 - x2).abs() < x3.abs() * (x1.abs() + x2.abs())
        };
        self.s_stack().push(if close { TRUE } else { FALSE });
    }
''')
fn('B', FL, 'ffetch', '''
    fn ffetch(&mut self) {
        let addr = self.s_stack().pop() as usize;
        let t = DataSpace::aligned_f64(addr);
        if !self.data_space().has(t) {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        let value = unsafe { self.data_space().get_f64(t) };
        self.f_stack().push(value);
    }
''')
txt('B', P, '''    let mut sign = 1;
    let mut bytes = input;
    if bytes.len() >= 1 {
        match bytes[0] {
            b'+' => {
                bytes = &bytes[1..];
            }
            b'-' => {
                sign = -1;
                bytes = &bytes[1..];
            }
            _ => {
                // Do nothing.
            }
        }
    }
    IResult::Done(&bytes, sign)''', '''    match input.first() {
        Some(&b'+') => IResult::Done(&input[1..], 1),
        Some(&b'-') => IResult::Done(&input[1..], -1),
        _ => IResult::Done(input, 1),
    }''')
txt('B', P, '''        let d;
        if b'0' <= *c && *c <= b'9' {
            d = (*c - b'0') as isize;
        } else if b'a' <= *c && *c <= b'f' {
            d = (*c - b'a') as isize + 10;
        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
''', '''        let d = match *c {
            b'0'..=b'9' => (*c - b'0') as isize,
            b'a'..=b'f' => (*c - b'a') as isize + 10,
            b'A'..=b'F' => (*c - b'A') as isize + 10,
            _ => return IResult::Err(RESULT_OUT_OF_RANGE),
        };
''')
txt('B', P, '''    for c in bytes.iter() {
        if b'0' <= *c && *c <= b'9' {
            // Do not allow wrapping for floating point.
            match value
                .checked_mul(10)
                .and_then(|x| x.checked_add((*c - b'0') as isize))
            {
                Some(v) => {
                    value = v;
                }
                None => return IResult::Err(RESULT_OUT_OF_RANGE),
            }
            len = len + 1;
        } else {
            break;
        }
    }
    bytes = &bytes[len..];''', '''    while len < bytes.len() && bytes[len].is_ascii_digit() {
        // Do not allow wrapping for floating point.
        let digit = (bytes[len] - b'0') as isize;
        value = match value.checked_mul(10).and_then(|x| x.checked_add(digit)) {
            Some(v) => v,
            None => return IResult::Err(RESULT_OUT_OF_RANGE),
        };
        len += 1;
    }
    bytes = &bytes[len..];''')
txt('B', X, ': min ( n1 n2 -- n3 )   2dup < if drop else nip then ;', ': min ( n1 n2 -- n3 )   2dup > if swap then drop ;')
txt('B', X, ': ?dup ( x -- 0 | x x )   dup if dup then ;', ': ?dup ( x -- 0 | x x )   dup 0= if else dup then ;')
txt('B', X, ': bounds ( a n -- a+n a )   over + swap ;', ': bounds ( a n -- a+n a )   swap dup rot + swap ;')
txt('B', X, ': f> ( -- flag ) ( F: r1 r2 -- )  fswap f< ;', ': f> ( -- flag ) ( F: r1 r2 -- )\n  \\ reversed less-than\n  fswap  f< ;')
txt('B', X, ': 2, ( n1 n2 -- )   here  2 cells allot  2! ;', ': 2, ( n1 n2 -- )   , , ;')
txt('B', X, ': h. ( n -- )   base @ swap  hex . base ! ;', ': h. ( n -- )   base @ >r  hex .  r> base ! ;')
txt('B', X, '''    2 = if source-idx! source-id! else abort then ;''', '''    2 <> if abort else source-idx! source-id! then ;''')
txt('B', X, ''': save-source
    source-id source-idx
    src-stack 2@ over > if
      ( src-id src-idx count ) 1+ dup src-stack cell+ !
      ( src-id src-idx count+1 ) 2* cells src-stack +  2!
    else abort then ;''', ''': src-slot ( n -- addr )   2* cells src-stack + ;
: save-source
    source-id source-idx
    src-stack 2@ over > if
      ( src-id src-idx count ) 1+ dup src-stack cell+ !
      ( src-id src-idx count+1 ) src-slot  2!
    else abort then ;''')

# ---------------------------------------------------------------- group C
MV, UN, FA, EX, ENV = 'src/mock_vm.rs', 'src/units.rs', 'src/facility.rs', 'src/exception.rs', 'src/env.rs'
txt('C', FL, '''        self.add_primitive("fsin", Float::fsin);
        self.add_primitive("fcos", Float::fcos);
        self.add_primitive("ftan", Float::ftan);
''', '''        let trig: [(&str, fn(&mut Self)); 3] = [
            ("fsin", Float::fsin),
            ("fcos", Float::fcos),
            ("ftan", Float::ftan),
        ];
        for &(name, action) in trig.iter() {
            self.add_primitive(name, action);
        }
''')
fn('C', FL, 'fsin', '''
    fn map_top(&mut self, f: fn(f64) -> f64) {
        let t = self.f_stack().pop();
        self.f_stack().push(f(t));
    }

    fn fsin(&mut self) {
        self.map_top(f64::sin);
    }
''')
fn('C', FL, 'fcos', '''
    fn fcos(&mut self) {
        self.map_top(|x| x.cos());
    }
''')
fn('C', FL, 'fabs', '''
    fn fabs(&mut self) {
        self.map_top(f64::abs)
    }
''')
fn('C', FL, 'fplus', '''
    fn combine<F: Fn(f64, f64) -> f64>(&mut self, f: F) {
        let (n, t) = self.f_stack().pop2();
        self.f_stack().push(f(n, t));
    }

    fn fplus(&mut self) {
        self.combine(|n, t| n + t);
    }
''')
fn('C', FL, 'fminus', '''
    fn fminus(&mut self) {
        self.combine(|n, t| n - t);
    }
''')
fn('C', FL, 'fpowf', '''
    fn fpowf(&mut self) {
        self.combine(f64::powf);
    }
''')
fn('C', FL, 'f_less_than', '''
    fn push_bool(&mut self, flag: bool) {
        let value = if flag { TRUE } else { FALSE };
        self.s_stack().push(value);
    }

    fn f_less_than(&mut self) {
        let (n, t) = self.f_stack().pop2();
        self.push_bool(t > n);
    }
''')
fn('C', FL, 'f_zero_equals', '''
    fn f_zero_equals(&mut self) {
        let t = self.f_stack().pop();
        self.push_bool(!(t != 0.0));
    }
''')
fn('C', FL, 'frot', '''
    fn frot(&mut self) {
        let (x1, x2, x3) = self.f_stack().pop3();
        self.f_stack().push3(x2, x3, x1);
    }
''')
fn('C', FL, 'fpick', '''
    fn fpick(&mut self) {
        let t = self.s_stack().pop() as u8;
        let index = self.f_stack().len.wrapping_sub(t).wrapping_sub(1);
        let x = self.f_stack()[index];
        self.f_stack().push(x);
    }
''')
fn('C', FL, 'fconstant', '''
    fn fconstant(&mut self) {
        let v = self.f_stack().pop();
        self.define(Float::p_fconst, Core::compile_fconst);
        if self.last_error().is_some() {
            return;
        }
        let space = self.data_space();
        space.align_f64();
        space.compile_f64(v);
    }
''')
fn('C', UN, 'from_mm', '''
    fn scale(&mut self, factor: f64) {
        let t = self.f_stack().pop();
        self.f_stack().push(t * factor);
    }

    fn from_mm(&mut self) {
        self.scale(MILLIMETER);
    }
''')
fn('C', UN, 'from_um', '''
    fn from_um(&mut self) {
        self.scale(MICROMETER);
    }
''')
fn('C', UN, 'from_hour', '''
    fn from_hour(&mut self) {
        self.scale(HOUR);
    }
''')
fn('C', FA, 'mtime', '''
    fn clock(&self, ns_per_tick: u64) -> isize {
        (self.system_time_ns() / ns_per_tick) as isize
    }

    fn mtime(&mut self) {
        let now = self.clock(1_000_000);
        self.s_stack().push(now);
    }
''')
fn('C', FA, 'utime', '''
    fn utime(&mut self) {
        let now = self.clock(1_000);
        self.s_stack().push(now);
    }
''')
fn('C', C, 'equals', '''
    fn compare<F: Fn(isize, isize) -> bool>(&mut self, f: F) {
        let (n, t) = self.s_stack().pop2();
        let flag = if f(n, t) { TRUE } else { FALSE };
        self.s_stack().push(flag);
    }

    fn equals(&mut self) {
        self.compare(|n, t| n == t);
    }
''')
fn('C', C, 'less_than', '''
    fn less_than(&mut self) {
        self.compare(|n, t| t > n);
    }
''')
fn('C', C, 'greater_than', '''
    fn greater_than(&mut self) {
        self.compare(|n, t| n > t);
    }
''')
fn('C', C, 'not_equals', '''
    fn not_equals(&mut self) {
        self.compare(|n, t| n != t);
    }
''')
fn('C', C, 'zero_equals', '''
    fn zero_equals(&mut self) {
        let t = self.s_stack().pop();
        let flag = !(t != 0);
        self.s_stack().push(-(flag as isize));
    }
''')
fn('C', C, 'negate', '''
    fn negate(&mut self) {
        let t = self.s_stack().pop();
        self.s_stack().push(0isize.wrapping_sub(t));
    }
''')
fn('C', C, 'slash', '''
    fn checked_divide(&mut self, f: fn(isize, isize) -> isize) {
        let (n, t) = self.s_stack().pop2();
        if t != 0 {
            self.s_stack().push(f(n, t));
        } else {
            self.abort_with(DIVISION_BY_ZERO);
        }
    }

    fn slash(&mut self) {
        self.checked_divide(isize::wrapping_div);
    }
''')
fn('C', C, 'p_mod', '''
    fn p_mod(&mut self) {
        self.checked_divide(|n, t| n.wrapping_rem(t));
    }
''')
fn('C', C, 'two_swap', '''
    fn two_swap(&mut self) {
        let (c, d) = self.s_stack().pop2();
        let (a, b) = self.s_stack().pop2();
        self.s_stack().push2(c, d);
        self.s_stack().push2(a, b);
    }
''')
fn('C', C, 'two_to_r', '''
    fn two_to_r(&mut self) {
        let (n, t) = self.s_stack().pop2();
        self.r_stack().push2(n, t);
    }
''')
fn('C', C, 'two_r_fetch', '''
    fn two_r_fetch(&mut self) {
        let (n, t) = self.r_stack().pop2();
        self.r_stack().push2(n, t);
        self.s_stack().push2(n, t);
    }
''')
fn('C', C, 'p_i', '''
    fn p_i(&mut self) {
        let index = {
            let r = self.r_stack();
            let top = r.len.wrapping_sub(1);
            r[top].wrapping_add(r[top.wrapping_sub(1)])
        };
        self.s_stack().push(index);
    }
''')
fn('C', C, 'p_j', '''
    fn p_j(&mut self) {
        let pos = self.r_stack().len().wrapping_sub(4);
        let pair = (
            self.r_stack().get(pos),
            self.r_stack().get(pos.wrapping_sub(1)),
        );
        if let (Some(jt), Some(jn)) = pair {
            self.s_stack().push(jn.wrapping_add(jt));
        } else {
            self.abort_with(RETURN_STACK_UNDERFLOW);
        }
    }
''')
fn('C', C, 'imm_of', '''
    fn compile_references(&mut self, words: &[usize]) {
        for &w in words {
            self.compile_word(w);
        }
    }

    fn imm_of(&mut self) {
        let top = self.c_stack().pop();
        let valid = match top {
            Control::Case | Control::Endof(_) => true,
            _ => false,
        };
        if !valid {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
            return;
        }
        self.c_stack().push(top);
        if self.c_stack().underflow() {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
            return;
        }
        let (over, equal, drop) = {
            let r = self.references();
            (r.idx_over, r.idx_equal, r.idx_drop)
        };
        self.compile_references(&[over, equal]);
        let here = self.compile_zero_branch(0);
        self.compile_word(drop);
        self.c_stack().push(Control::Of(here));
    }
''')
fn('C', C, 'imm_endcase', '''
    fn imm_endcase(&mut self) {
        let top = self.c_stack().len;
        let mut at = top;
        loop {
            at = at.wrapping_sub(1);
            self.c_stack().len = at;
            let bad = match self.c_stack()[at] {
                Control::Case | Control::Endof(_) => self.c_stack().underflow(),
                _ => true,
            };
            if bad {
                self.abort_with(CONTROL_STRUCTURE_MISMATCH);
                return;
            }
            if let Control::Case = self.c_stack()[at] {
                break;
            }
        }
        let drop = self.references().idx_drop;
        self.data_space().compile_usize(drop);
        let here = self.data_space().here() as isize;
        for k in (at + 1..top).rev() {
            if let Control::Endof(part) = self.c_stack()[k] {
                unsafe { self.data_space().put_isize(here, part - mem::size_of::<isize>()) };
            }
        }
    }
''')
fn('C', C, 'compile_leave', '''
    fn compile_leave(&mut self, word_idx: usize) {
        if self.leave_part().is_none() {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
        } else {
            self.compile_word(word_idx);
        }
    }
''')
fn('C', C, 'leave_part', '''
    fn leave_part(&mut self) -> Option<usize> {
        for &c in self.c_stack().as_slice().iter().rev() {
            if let Control::Do(_, leave_part) = c {
                return Some(leave_part);
            }
        }
        None
    }
''')
fn('C', C, 'semicolon', '''
    fn semicolon(&mut self) {
        let unbalanced = self.c_stack().len != 0 || self.forward_bitset().layer3() != 0;
        if unbalanced {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
        } else {
            let idx = self.references().idx_exit;
            let compile = self.wordlist()[idx].compilation_semantics;
            compile(self, idx);
            let def = self.wordlist().last;
            self.wordlist_mut()[def].set_hidden(false);
        }
        self.state().is_compiling = false;
    }
''')
fn('C', C, 'marker', '''
    fn marker(&mut self) {
        let saved_last = self.wordlist().last;
        let saved = self.wordlist().buckets;
        self.wordlist_mut().temp_buckets = saved;
        self.define(Core::unmark, Core::compile_unmark);
        if self.last_error().is_none() {
            self.data_space().compile_usize(saved_last);
            for &link in saved.iter() {
                self.data_space().compile_usize(link);
            }
        }
    }
''')
fn('C', C, 'does', '''
    fn does(&mut self) {
        let (does, exit) = (self.references().idx__does, self.references().idx_exit);
        self.compile_word(does);
        self.compile_word(exit);
    }
''')
fn('C', C, 'constant', '''
    fn constant(&mut self) {
        let v = self.s_stack().pop();
        self.define(Core::p_const, Core::compile_const);
        match self.last_error() {
            Some(_) => {}
            None => self.data_space().compile_isize(v),
        }
    }
''')
fn('C', C, 'reset', None)
txt('C', C, '''        self.r_stack().reset();
        self.set_source_id(0);
        if let Some(ref mut buf) = *self.input_buffer() {
            buf.clear()
        }
        self.state().aborted_word_pointer = 0;
        self.state().source_index = 0;
        self.left_bracket();
        self.set_error(None);
''', '''        {
            let state = self.state();
            state.aborted_word_pointer = 0;
            state.source_index = 0;
            state.is_compiling = false;
        }
        self.set_source_id(0);
        if let Some(buf) = self.input_buffer().as_mut() {
            buf.clear();
        }
        self.r_stack().reset();
        self.set_error(None);
''')
fn('C', C, 'clear_stacks', '''
    fn clear_stacks(&mut self) {
        self.c_stack().reset();
        self.f_stack().reset();
        self.s_stack().reset();
    }
''')
fn('C', C, 'dot_error', '''
    fn dot_error(&mut self) {
        if let Some(e) = self.last_error() {
            if let Some(buf) = self.output_buffer().as_mut() {
                buf.push_str(exception::description(e));
            }
        }
    }
''')
fn('C', C, 'execute_word', '''
    fn execute_word(&mut self, i: usize) {
        self.state().word_pointer = i;
        if i >= self.wordlist().len() {
            self.abort_with(UNSUPPORTED_OPERATION);
            return;
        }
        let action = self.wordlist()[i].action();
        action(self);
    }
''')
fn('C', C, 'to_body', '''
    fn word_at(&mut self, xt: isize) -> Option<&Word<Self>> {
        let xt = xt as usize;
        if xt < self.wordlist().len() {
            Some(&self.wordlist()[xt])
        } else {
            None
        }
    }

    fn to_body(&mut self) {
        let xt = self.s_stack().pop();
        match self.word_at(xt).map(|w| w.dfa()) {
            Some(dfa) => self.s_stack().push(dfa as isize),
            None => self.abort_with(INVALID_NUMERIC_ARGUMENT),
        }
    }
''')
fn('C', C, 'c_store', '''
    fn c_store(&mut self) {
        let (n, t) = self.s_stack().pop2();
        let addr = t as usize;
        if addr <= self.data_space().start() || addr >= self.data_space().limit() {
            self.abort_with(INVALID_MEMORY_ADDRESS);
        } else {
            unsafe { self.data_space().put_u8((n & 0xff) as u8, addr) };
        }
    }
''')
fn('C', C, 'compile_branch', '''
    fn compile_with_operand(&mut self, idx: usize, operand: isize) -> usize {
        self.compile_word(idx);
        self.data_space().compile_isize(operand);
        self.data_space().here()
    }

    fn compile_branch(&mut self, destination: usize) -> usize {
        let idx = self.references().idx_branch;
        self.compile_with_operand(idx, destination as isize)
    }
''')
fn('C', C, 'imm_do', '''
    fn imm_do(&mut self) {
        let idx = self.references().idx_do;
        let here = self.compile_with_operand(idx, 0);
        self.c_stack().push(Control::Do(here, here));
    }
''')
fn('C', C, 'immediate', '''
    fn immediate(&mut self) {
        let last = self.wordlist().last;
        let word = &mut self.wordlist_mut()[last];
        word.is_immediate = true;
    }
''')
fn('C', C, 'add_immediate_and_compile_only', '''
    fn add_immediate_and_compile_only(&mut self, name: &str, action: fn(&mut Self)) {
        self.add_compile_only(name, action);
        self.immediate();
    }
''')
fn('C', M, 'allot', '''
    fn allot(&mut self, v: isize) {
        let here = self.here().wrapping_add(v as usize);
        let _ = self.set_here(here);
    }
''')
fn('C', M, 'align', '''
    fn align(&mut self) {
        let here = Self::aligned(self.here());
        if here != self.here() {
            let _ = self.set_here(here);
        }
    }
''')
fn('C', M, 'aligned', '''
    fn aligned(pos: usize) -> usize {
        let mask = mem::align_of::<isize>() - 1;
        pos.wrapping_add(mask) & !mask
    }
''')
fn('C', M, 'set_here', '''
    fn set_here(&mut self, pos: usize) -> Result<(), Exception> {
        if pos < self.start() || pos > self.limit() {
            return Err(INVALID_MEMORY_ADDRESS);
        }
        self.len = pos - self.start();
        Ok(())
    }
''')
fn('C', M, 'compile_usize', '''
    fn compile_usize(&mut self, v: usize) {
        self.compile_isize(v as isize);
    }
''')
fn('C', T, 'dot_s', '''
    fn dot_s(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let some_data = self.s_stack().len() > 0;
            let some_floats = self.f_stack().len() > 0;
            if some_data {
                write!(buf, "{:?}", self.s_stack()).unwrap();
            }
            if some_data && some_floats {
                buf.push(' ');
            }
            if some_floats {
                write!(buf, "F: {:?}", self.f_stack()).unwrap();
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn('C', T, 'words', '''
    fn words(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let mut w = self.wordlist().len();
            while w > 1 {
                w -= 1;
                if self.wordlist()[w].is_hidden() {
                    continue;
                }
                let nfa = self.wordlist()[w].nfa();
                let name = unsafe { self.data_space().get_str(nfa) };
                buf.push_str(name);
                buf.push(' ');
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn('C', T, 'dot_word', '''
    fn dot_word(&mut self) {
        let xt = self.s_stack().pop() as usize;
        if let Some(mut buf) = self.output_buffer().take() {
            let name = if xt < self.wordlist().len() {
                let nfa = self.wordlist()[xt].nfa();
                unsafe { self.data_space().get_str(nfa) }
            } else {
                "unknown"
            };
            write!(buf, "{} ", name).unwrap();
            self.set_output_buffer(buf);
        }
    }
''')
fn('C', T, 'set_execution_times', '''
    fn set_execution_times(&mut self) {
        let (t0, xt) = self.s_stack().pop2();
        let now = (self.system_time_ns() / 1_000) as usize;
        let t = now.wrapping_sub(t0 as usize);
        let xt = xt as usize;
        if xt >= self.wordlist().len() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let word = &mut self.wordlist_mut()[xt];
        word.min_execution_time = match word.min_execution_time {
            0 => t,
            min => min.min(t),
        };
        if t > word.max_execution_time {
            word.max_execution_time = t;
        }
    }
''')
fn('C', T, 'clear_xtime', '''
    fn clear_xtime(&mut self) {
        for w in 1..self.wordlist().len() {
            if self.wordlist()[w].min_execution_time == 0 {
                continue;
            }
            let word = &mut self.wordlist_mut()[w];
            word.max_execution_time = 0;
            word.min_execution_time = 0;
        }
    }
''')
fn('C', O, 's_quote', '''
    fn s_quote(&mut self) {
        if let Some(input_buffer) = self.input_buffer().take() {
            self.compile_quoted(input_buffer.as_str());
            self.set_input_buffer(input_buffer);
        } else {
            self.compile_quoted("");
        }
    }

    fn compile_quoted(&mut self, text: &str) {
        let start = self.state().source_index.saturating_add(1).min(text.len());
        let source = text.get(start..).unwrap_or("");
        let cnt = source.find('"').unwrap_or(source.len());
        let idx = self.references().idx_s_quote;
        let compilation_semantics = self.wordlist()[idx].compilation_semantics;
        compilation_semantics(self, idx);
        self.data_space().compile_str(&source[..cnt]);
        self.data_space().align();
        self.state().source_index = (start + cnt + 1).min(text.len());
    }
''')
fn('C', O, 'dot_paren', '''
    fn dot_paren(&mut self) {
        self.s_stack().push(')' as isize);
        self.parse();
        let last_token = self.last_token().take().unwrap();
        if let Some(buffer) = self.output_buffer().as_mut() {
            buffer.push_str(&last_token);
        }
        self.set_last_token(last_token);
    }
''')
fn('C', O, 'fdot_r', None)
fn('C', L, 'p_load_line', '''
    fn p_load_line(&mut self) {
        let id = self.s_stack().pop() as usize;
        let result = self.load_line(id);
        if let Ok((len, not_eof)) = result {
            let flag = if not_eof { -1 } else { 0 };
            self.s_stack().push2(len as isize, flag);
        } else if let Err(e) = result {
            self.abort_with(e);
        }
    }
''')
fn('C', L, 'load_str', '''
    fn load_str(&mut self, script: &str) {
        self.set_source(script);
        self.evaluate_input();
    }
''')
fn('C', L, 'dot_source_line', '''
    fn dot_source_line(&mut self) {
        let id = self.s_stack().pop();
        let valid = id > 0 && id - 1 < self.lines().len() as isize;
        let line = if valid {
            self.lines_mut()[id as usize - 1].take()
        } else {
            None
        };
        if let Some(s) = line {
            self.push_output(&s);
            self.lines_mut()[id as usize - 1] = Some(s);
        } else {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        }
    }
''')
fn('C', F, 'resize_file', '''
    fn with_file<G: FnOnce(&mut fs::File, u64) -> bool>(&mut self, f: G) {
        let (ud_lower, ud_upper, fileid) = self.s_stack().pop3();
        let valid = fileid > 0 && fileid <= self.files().len() as isize && ud_upper == 0 && ud_lower >= 0;
        let mut ior: isize = INVALID_NUMERIC_ARGUMENT.into();
        if valid {
            if let Some(file) = self.files_mut()[fileid as usize - 1].as_mut() {
                ior = if f(file, ud_lower as u64) {
                    0
                } else {
                    FILE_IO_EXCEPTION.into()
                };
            }
        }
        self.s_stack().push(ior);
    }

    fn resize_file(&mut self) {
        self.with_file(|file, size| file.set_len(size).is_ok());
    }
''')
fn('C', F, 'reposition_file', '''
    fn reposition_file(&mut self) {
        self.with_file(|file, pos| file.seek(SeekFrom::Start(pos)).is_ok());
    }
''')
fn('C', F, 'delete_file', '''
    fn delete_file(&mut self) {
        let (caddr, u) = self.s_stack().pop2();
        let caddr = caddr as usize;
        let u = u as usize;
        let ior: isize = if u > PATH_NAME_MAX_LEN {
            INVALID_NUMERIC_ARGUMENT.into()
        } else if caddr < self.data_space().start()
            || caddr > self.data_space().limit()
            || u > self.data_space().limit() - caddr
        {
            INVALID_MEMORY_ADDRESS.into()
        } else {
            let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
            if fs::remove_file(path_name).is_ok() {
                0
            } else {
                FILE_IO_EXCEPTION.into()
            }
        };
        self.s_stack().push(ior);
    }
''')
fn('C', MV, 'none', None)
txt('C', P, '''        for c in bytes.iter() {
            if b'0' <= *c && *c <= b'9' {
                // Do not allow wrapping for floating point.
                match value
                    .checked_mul(10)
                    .and_then(|x| x.checked_add((*c - b'0') as isize))
                {
                    Some(v) => value = v,
                    None => return IResult::Err(RESULT_OUT_OF_RANGE),
                }
                len = len + 1;
            } else {
                break;
            }
        }
        IResult::Done(&bytes[len as usize..], (value as f64) / (10.0f64).powi(len))
''', '''        match uint(bytes) {
            IResult::Done(rest, v) => {
                len += (bytes.len() - rest.len()) as i32;
                value += v;
                IResult::Done(rest, (value as f64) / (10.0f64).powi(len))
            }
            IResult::Err(e) => IResult::Err(e),
        }
''')
txt('C', P, '''    if input.len() == 3 && input[0] == 39u8 && input[2] == 39u8 {
        IResult::Done(&input[3..], input[1] as isize)
    } else {
        IResult::Err(RESULT_OUT_OF_RANGE)
    }''', '''    match input {
        [39, c, 39] => IResult::Done(&input[3..], *c as isize),
        _ => IResult::Err(RESULT_OUT_OF_RANGE),
    }''')
txt('C', P, '''    for c in bytes.iter() {
        let d;
        if b'0' <= *c && *c <= b'9' {
            d = (*c - b'0') as isize;
        } else if b'a' <= *c && *c <= b'f' {
            d = (*c - b'a') as isize + 10;
        } else if b'A' <= *c && *c <= b'F' {
            d = (*c - b'A') as isize + 10;
        } else {
            return IResult::Err(RESULT_OUT_OF_RANGE);
        }
        if d >= base {
''', '''    for &c in bytes {
        let d = match (c as char).to_digit(16) {
            Some(d) => d as isize,
            None => return IResult::Err(RESULT_OUT_OF_RANGE),
        };
        if d >= base {
''')
R = [r for r in R if r[3] is not None]
