"""group J: functions not touched by the earlier groups."""
from refacs import R, txt
C, F, M, O, T = 'src/core.rs', 'src/float.rs', 'src/memory.rs', 'src/output.rs', 'src/tools.rs'
G = 'J'


def fn(file, name, text, g=G):
    R.append((g, file, name, text))


fn(C, 'add_primitive', '''    fn add_primitive(&mut self, name: &str, action: fn(&mut Self)) {
        let space = self.data_space();
        let name_field = space.compile_str(name);
        space.align();
        let body = space.here();
        self.wordlist_mut()
            .push(name, Word::new(action, Core::compile_word, name_field, body));
    }
''')
fn(C, 'add_immediate', '''    fn add_immediate(&mut self, name: &str, action: fn(&mut Self)) {
        self.add_primitive(name, action);
        let def = self.wordlist().last;
        self.wordlist_mut()[def].set_immediate(true);
    }
''')
fn(C, 'compile_nest', '''    fn compile_nest(&mut self, word_index: usize) {
        self.data_space().compile_usize(word_index);
    }
''')
fn(C, 'compile_word', '''    fn compile_word(&mut self, word_index: usize) {
        let space = self.data_space();
        space.compile_isize(word_index as isize);
    }
''')
fn(C, 'compile_integer', '''    fn compile_integer(&mut self, i: isize) {
        let lit = self.references().idx_lit;
        let space = self.data_space();
        space.compile_usize(lit);
        space.compile_usize(i as usize);
    }
''')
fn(C, 'compile_float', '''    fn compile_float(&mut self, f: f64) {
        let flit = self.references().idx_flit;
        self.compile_word(flit);
        let space = self.data_space();
        let at = DataSpace::aligned_f64(space.here());
        space.set_here(at);
        space.compile_f64(f);
    }
''')
fn(C, 'compile_zero_branch', '''    fn compile_zero_branch(&mut self, destination: usize) -> usize {
        let words = [self.references().idx_zero_branch, destination];
        for w in words.iter() {
            self.data_space().compile_usize(*w);
        }
        self.data_space().here()
    }
''')
fn(C, 'patch_compilation_semanticses', '''    fn patch_compilation_semanticses(&mut self) {
        match self.find("leave") {
            Some(idx) => {
                let w = &mut self.wordlist_mut()[idx];
                w.compilation_semantics = Self::compile_leave;
            }
            None => panic!("leave"),
        }
    }
''')
fn(C, 'imm_while', '''    fn imm_while(&mut self) {
        let control = Control::While(self.compile_zero_branch(0));
        self.c_stack().push(control);
    }
''')
fn(C, 'imm_clear_labels', '''    fn imm_clear_labels(&mut self) {
        self.resolved_bitset_mut().clear();
        self.forward_bitset_mut().clear();
    }
''')
fn(C, 'imm_call', '''    fn imm_call(&mut self) {
        let cell = mem::size_of::<isize>();
        let here = self.data_space().here();
        // lit, return address, >r, branch, destination
        self.compile_integer((here + cell * 5) as isize);
        let to_r = self.references().idx_to_r;
        self.data_space().compile_usize(to_r);
        self.imm_goto();
    }
''')
fn(C, 'imm_recurse', '''    fn imm_recurse(&mut self) {
        let n = self.wordlist().len();
        self.compile_word(n - 1);
    }
''')
fn(C, 'set_source', '''    fn set_source(&mut self, s: &str) {
        self.state().source_index = 0;
        match self.input_buffer().take() {
            Some(mut buffer) => {
                buffer.truncate(0);
                buffer.extend(s.chars());
                self.set_input_buffer(buffer);
            }
            None => panic!("input buffer"),
        }
    }
''')
fn(C, 'push_source', '''    fn push_source(&mut self, s: &str) {
        let buffer = self.input_buffer().take().expect("input buffer") + s;
        self.set_input_buffer(buffer);
    }
''')
fn(C, 'p_compiling', '''    fn p_compiling(&mut self) {
        let compiling = self.state().is_compiling;
        self.s_stack().push(-(compiling as isize));
    }
''')
fn(C, 'base', '''    fn base(&mut self) {
        let addr = {
            let space = self.data_space();
            space.system_variables().base_addr() as isize
        };
        self.s_stack().push(addr);
    }
''')
fn(C, 'p_var', '''    fn p_var(&mut self) {
        let wp = self.state().word_pointer();
        let word = &self.wordlist()[wp];
        let addr = word.dfa();
        self.s_stack().push(addr as isize);
    }
''')
fn(C, 'p_const', '''    fn p_const(&mut self) {
        let wp = self.state().word_pointer;
        let body = self.wordlist()[wp].dfa();
        let cell = unsafe { self.data_space().get_usize(body) };
        self.s_stack().push(cell as isize);
    }
''')
fn(C, '_does', '''    fn _does(&mut self) {
        let doer = self.state().instruction_pointer + mem::size_of::<isize>();
        let def = self.wordlist().last;
        {
            let word = &mut self.wordlist_mut()[def];
            word.doer = doer;
            word.action = Core::xdoes;
        }
        self.data_space().compile_isize(doer as isize);
    }
''')
fn(C, 'to_name', '''    fn to_name(&mut self) {
        let xt = self.s_stack().pop();
        if xt < 0 || xt as usize >= self.wordlist().len() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let nfa = self.wordlist()[xt as usize].nfa();
        self.s_stack().push(nfa as isize);
    }
''')
fn(C, 'execute', '''    fn execute(&mut self) {
        let xt = self.s_stack().pop() as usize;
        self.execute_word(xt);
    }
''')
fn(C, 'compile_comma', '''    fn compile_comma(&mut self) {
        self.comma();
    }
''')
fn(C, 'comma', '''    fn comma(&mut self) {
        let v = self.s_stack().pop() as usize;
        self.data_space().compile_usize(v);
    }
''')
fn(C, 'allot', '''    fn allot(&mut self) {
        let count = self.s_stack().pop();
        let space = self.data_space();
        space.allot(count);
    }
''')
fn(C, 'aligned', '''    fn aligned(&mut self) {
        let last = self.s_stack().len.wrapping_sub(1);
        let addr = self.s_stack()[last] as usize;
        self.s_stack()[last] = DataSpace::aligned(addr) as isize;
    }
''')
fn(C, 'p_to_r', '''    fn p_to_r(&mut self) {
        let t = self.s_stack().pop();
        self.r_stack().push(t);
    }
''')
fn(C, 'lit', '''    fn lit(&mut self) {
        let ip = self.state().instruction_pointer;
        let v = unsafe { self.data_space().get_isize(ip) };
        self.s_stack().push(v);
        self.state().instruction_pointer = ip + mem::size_of::<isize>();
    }
''')
fn(C, 'handler_store', '''    fn handler_store(&mut self) {
        let xt = self.s_stack().pop() as usize;
        self.set_handler(xt);
    }
''')
fn(C, 'me', '''    fn me(&mut self) {
        let me = self.current_task();
        self.s_stack().push(1 + me as isize);
    }
''')
fn(C, 'reset', '''    pub fn reset(&mut self) {
        for cell in self.inner.iter_mut() {
            *cell = self.canary;
        }
        self.len = 0;
    }
''')
fn(C, 'pop', '''    pub fn pop(&mut self) -> T {
        self.len = self.len.wrapping_sub(1);
        self.inner[self.len as usize]
    }
''')
fn(C, 'clear_stacks', '''    fn clear_stacks(&mut self) {
        self.c_stack().reset();
        self.s_stack().reset();
        self.f_stack().reset();
    }
''')
fn(C, 'abort_with', '''    fn abort_with(&mut self, e: Exception) {
        let wp = self.state().word_pointer;
        self.state().aborted_word_pointer = wp;
        self.set_error(Some(e));
        self.clear_stacks();
        let handler = self.handler();
        if self.wordlist().len() > handler {
            self.execute_word(handler);
        }
    }
''')
fn(F, 'faligned', '''    fn faligned(&mut self) {
        let t = self.s_stack().pop() as usize;
        self.s_stack().push(DataSpace::aligned_f64(t) as isize);
    }
''')
fn(F, 'falign', '''    fn falign(&mut self) {
        let space = self.data_space();
        let here = space.here();
        space.set_here(DataSpace::aligned_f64(here));
    }
''')
fn(F, 's_to_f', '''    fn s_to_f(&mut self) {
        let n = self.s_stack().pop() as f64;
        self.f_stack().push(n);
    }
''')
fn(F, 'fmin', '''    fn fmin(&mut self) {
        let (n, t) = self.f_stack().pop2();
        let least = f64::min(t, n);
        self.f_stack().push(least);
    }
''')
fn(F, 'p_fconst', '''    fn p_fconst(&mut self) {
        let wp = self.state().word_pointer();
        let dfa = self.wordlist()[wp].dfa();
        let v = unsafe { self.data_space().get_f64(DataSpace::aligned_f64(dfa)) };
        self.f_stack().push(v);
    }
''')
fn(M, 'new', '''    pub fn new(num_pages: usize) -> Self {
        Self::with_capacity(page_size::get() * num_pages)
    }
''')
fn(M, 'with_capacity', '''    pub fn with_capacity(cap: usize) -> Self {
        let layout = Layout::from_size_align(cap, page_size::get()).unwrap();
        let ptr: *mut u8 = unsafe { alloc_zeroed(layout) };
        if ptr.is_null() {
            panic!("Cannot allocate data space");
        }
        let mut space = DataSpace {
            cap,
            layout,
            inner: ptr,
            len: mem::size_of::<SystemVariables>(),
            marker: marker::PhantomData,
        };
        let vars = space.system_variables_mut();
        vars.base = 10;
        vars.null = 0;
        space
    }
''')
fn(M, 'drop', '''    fn drop(&mut self) {
        let (ptr, layout) = (self.inner, self.layout);
        unsafe { dealloc(ptr, layout) }
    }
''')
fn(M, 'put_usize', '''    unsafe fn put_usize(&mut self, v: usize, pos: usize) {
        (pos as *mut usize).write(v);
    }
''')
fn(M, 'compile_relative', '''    fn compile_relative(&mut self, f: usize) {
        let diff = f.wrapping_sub(self.here() + mem::size_of::<usize>());
        self.compile_usize(diff);
    }
''')
fn(M, 'get_f64', '''    unsafe fn get_f64(&self, addr: usize) -> f64 {
        let p = addr as *const f64;
        p.read()
    }
''')
fn(M, 'align', '''    fn align(&mut self) {
        let aligned = Self::aligned(self.here());
        self.set_here(aligned);
    }
''')
fn(O, 'dot_quote', '''    fn dot_quote(&mut self) {
        self.s_quote();
        let idx = self.references().idx_type;
        self.data_space().compile_usize(idx);
    }
''')
fn(O, 'emit', '''    fn emit(&mut self) {
        let ch = self.s_stack().pop();
        if let Some(buffer) = self.output_buffer().as_mut() {
            buffer.push(char::from(ch as u8));
        }
    }
''')
fn(T, 'dot_input', '''    fn dot_input(&mut self) {
        if let Some(input) = self.input_buffer().take() {
            if let Some(out) = self.output_buffer().as_mut() {
                out.push_str(&input);
            }
            self.set_input_buffer(input);
        }
    }
''')
fn(T, 'flush_to_err', '''    fn flush_to_err(&mut self) {
        if let Some(out) = self.output_buffer().as_mut() {
            eprintln!("{}", out);
            out.clear();
        }
    }
''')
fn(T, 'dot_s', '''    fn dot_s(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let has_data = self.s_stack().len() > 0;
            if has_data {
                write!(buf, "{:?}", self.s_stack()).expect("write data stack");
            }
            if self.f_stack().len() > 0 {
                if has_data {
                    buf.push(' ');
                }
                write!(buf, "F: {:?}", self.f_stack()).expect("write floating stack");
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn(T, 'words', '''    fn words(&mut self) {
        if let Some(mut buf) = self.output_buffer().take() {
            let mut w = self.wordlist().len();
            while w > 1 {
                w -= 1;
                if self.wordlist()[w].is_hidden() {
                    continue;
                }
                let nfa = self.wordlist()[w].nfa();
                let name = unsafe { self.data_space().get_str(nfa) };
                buf.push_str(name);
                buf.push(' ');
            }
            self.set_output_buffer(buf);
        }
    }
''')
fn('src/loader.rs', 'load_core_fth', '''    fn load_core_fth(&mut self) {
        self.load_str(include_str!("../core.fth"));
        if let Some(e) = self.last_error() {
            panic!("Error {:?} {:?}", e, self.last_token());
        }
    }
''')
fn('src/file_access.rs', 'file_position', '''    fn file_position(&mut self) {
        let fileid = self.s_stack().pop();
        let mut result = Err(INVALID_NUMERIC_ARGUMENT);
        if fileid > 0 && (fileid as usize) <= self.files().len() {
            if let Some(f) = self.files_mut()[fileid as usize - 1].as_mut() {
                result = match f.seek(SeekFrom::Current(0)) {
                    Ok(ud) if ud <= isize::max_value() as u64 => Ok(ud as isize),
                    Ok(_) => Err(RESULT_OUT_OF_RANGE),
                    Err(_) => Err(FILE_IO_EXCEPTION),
                };
            }
        }
        match result {
            Ok(ud) => self.s_stack().push3(ud, 0, 0),
            Err(e) => self.s_stack().push3(-1, -1, e.into()),
        }
    }
''')
# group K: registration restructured
K = 'K'
txt(K, C, '''        self.add_primitive("true", Core::p_true);
        self.add_primitive("false", Core::p_false);
        self.add_primitive("not", Core::zero_equals);
''', '''        let constants: [(&str, fn(&mut Self)); 2] = [("true", Core::p_true), ("false", Core::p_false)];
        for (name, action) in constants.iter() {
            self.add_primitive(name, *action);
        }
        self.add_primitive("not", Core::zero_equals);
''')
txt(K, O, '''        self.add_primitive("emit", Output::emit);
        self.add_primitive("type", Output::p_type);
''', '''        let list: [(&str, fn(&mut Self)); 2] = [("emit", Output::emit), ("type", Output::p_type)];
        for &(name, action) in &list {
            self.add_primitive(name, action);
        }
''')
