"""group E: helpers extracted across sibling words, in a third style."""
from refacs import fn, txt, C, M, P, F, L, O, T, FL, X
G = 'E'
K = 'src/mock_vm.rs'
fn(G, C, 'lit', '''
    /// Take the cell in line with the code.
    fn next_cell(&mut self) -> isize {
        let ip = self.state().instruction_pointer;
        self.state().instruction_pointer = ip + mem::size_of::<isize>();
        unsafe { self.data_space().get_isize(ip) }
    }

    fn skip_cell(&mut self) {
        let ip = self.state().instruction_pointer;
        self.state().instruction_pointer = ip + mem::size_of::<isize>();
    }

    fn lit(&mut self) {
        let v = self.next_cell();
        self.s_stack().push(v);
    }
''')
fn(G, C, 'flit', '''
    fn flit(&mut self) {
        let addr = DataSpace::aligned_f64(self.state().instruction_pointer);
        let v = unsafe { self.data_space().get_f64(addr) };
        self.f_stack().push(v);
        self.state().instruction_pointer = addr + mem::size_of::<f64>();
    }
''')
fn(G, C, 'p_s_quote', '''
    fn p_s_quote(&mut self) {
        let ip = self.state().instruction_pointer;
        let (addr, cnt) = {
            let s = unsafe { self.data_space().get_str(ip) };
            (s.as_ptr() as usize, s.len())
        };
        self.s_stack().push2(addr as isize, cnt as isize);
        self.state().instruction_pointer = DataSpace::aligned(ip + mem::size_of::<isize>() + cnt);
    }
''')
fn(G, C, 'branch', '''
    fn branch(&mut self) {
        let target = self.next_cell();
        self.state().instruction_pointer = target as usize;
    }
''')
fn(G, C, 'zero_branch', '''
    fn zero_branch(&mut self) {
        if self.s_stack().pop() != 0 {
            self.skip_cell();
            return;
        }
        self.branch();
    }
''')
fn(G, C, '_do', '''
    fn enter_loop(&mut self, limit: isize, start: isize) {
        let ip = self.state().instruction_pointer as isize;
        let rt = start.wrapping_sub(limit).wrapping_add(isize::min_value());
        self.r_stack().push3(ip, start.wrapping_sub(rt), rt);
        self.skip_cell();
    }

    fn _do(&mut self) {
        let (limit, start) = self.s_stack().pop2();
        self.enter_loop(limit, start);
    }
''')
fn(G, C, '_qdo', '''
    fn _qdo(&mut self) {
        let (limit, start) = self.s_stack().pop2();
        if limit != start {
            self.enter_loop(limit, start);
        } else {
            self.branch();
        }
    }
''')
fn(G, C, '_loop', '''
    fn step_loop(&mut self, step: isize) {
        let rt = self.r_stack().pop();
        let (sum, crossed) = rt.overflowing_add(step);
        if crossed {
            self.r_stack().pop2();
            self.skip_cell();
        } else {
            self.r_stack().push(sum);
            self.branch();
        }
    }

    fn _loop(&mut self) {
        self.step_loop(1);
    }
''')
fn(G, C, '_plus_loop', '''
    fn _plus_loop(&mut self) {
        let step = self.s_stack().pop();
        self.step_loop(step);
    }
''')
fn(G, C, 'leave', '''
    fn leave(&mut self) {
        let third = self.r_stack().pop3().0;
        if self.r_stack().underflow() {
            self.abort_with(RETURN_STACK_UNDERFLOW);
        } else {
            let target = unsafe { self.data_space().get_usize(third as usize) };
            self.state().instruction_pointer = target;
        }
    }
''')
fn(G, C, 'p_i', '''
    fn p_i(&mut self) {
        let len = self.r_stack().len();
        let t = self.r_stack()[len.wrapping_sub(1)];
        let n = self.r_stack()[len.wrapping_sub(2)];
        self.s_stack().push(t.wrapping_add(n));
    }
''')
fn(G, C, 'p_j', '''
    fn p_j(&mut self) {
        let len = self.r_stack().len();
        let t = self.r_stack()[len.wrapping_sub(4)];
        let n = self.r_stack()[len.wrapping_sub(5)];
        self.s_stack().push(t.wrapping_add(n));
    }
''')
fn(G, C, 'compile_leave', '''
    fn compile_leave(&mut self, word_idx: usize) {
        let inside = self.c_stack().as_slice().iter().any(|c| match *c {
            Control::Do(_, _) => true,
            _ => false,
        });
        if inside {
            self.compile_word(word_idx);
        } else {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
        }
    }
''')
fn(G, C, 'imm_if', '''
    /// Make the branch operand just before `after` point to `target`.
    fn patch(&mut self, after: usize, target: usize) {
        unsafe {
            self.data_space()
                .put_isize(target as isize, after - mem::size_of::<isize>());
        }
    }

    fn mismatch(&mut self) {
        self.abort_with(CONTROL_STRUCTURE_MISMATCH);
    }

    fn imm_if(&mut self) {
        let here = self.compile_zero_branch(0);
        self.c_stack().push(Control::If(here));
    }
''')
fn(G, C, 'imm_else', '''
    fn imm_else(&mut self) {
        match self.c_stack().pop() {
            Control::If(part) if !self.c_stack().underflow() => {
                let here = self.compile_branch(0);
                self.c_stack().push(Control::Else(here));
                self.patch(part, here);
            }
            _ => self.mismatch(),
        }
    }
''')
fn(G, C, 'imm_then', '''
    fn imm_then(&mut self) {
        match self.c_stack().pop() {
            Control::If(part) | Control::Else(part) if !self.c_stack().underflow() => {
                let here = self.data_space().here();
                self.patch(part, here);
            }
            _ => self.mismatch(),
        }
    }
''')
fn(G, C, 'imm_endof', '''
    fn imm_endof(&mut self) {
        if let Control::Of(part) = self.c_stack().pop() {
            if self.c_stack().underflow() {
                self.mismatch();
                return;
            }
            let here = self.compile_branch(0);
            self.patch(part, here);
            self.c_stack().push(Control::Endof(here));
        } else {
            self.mismatch();
        }
    }
''')
fn(G, C, 'imm_endcase', '''
    fn imm_endcase(&mut self) {
        let len = self.c_stack().len;
        let ok = loop {
            let part = self.c_stack().pop();
            if self.c_stack().underflow() {
                break false;
            }
            match part {
                Control::Case => break true,
                Control::Endof(_) => {}
                _ => break false,
            }
        };
        if !ok {
            self.mismatch();
            return;
        }
        self.c_stack().len = len;
        let idx = self.references().idx_drop;
        self.compile_word(idx);
        let here = self.data_space().here();
        loop {
            match self.c_stack().pop() {
                Control::Endof(part) => self.patch(part, here),
                _ => return,
            }
        }
    }
''')
fn(G, C, 'imm_repeat', '''
    fn imm_repeat(&mut self) {
        match self.c_stack().pop2() {
            (Control::Begin(begin_part), Control::While(while_part)) => {
                if self.c_stack().underflow() {
                    self.mismatch();
                    return;
                }
                let here = self.compile_branch(begin_part);
                self.patch(while_part, here);
            }
            _ => self.mismatch(),
        }
    }
''')
fn(G, C, 'imm_until', '''
    fn imm_until(&mut self) {
        match self.c_stack().pop() {
            Control::Begin(begin_part) if !self.c_stack().underflow() => {
                let _ = self.compile_zero_branch(begin_part);
            }
            _ => self.mismatch(),
        }
    }
''')
fn(G, C, 'imm_loop', '''
    fn end_loop(&mut self, idx: usize) {
        let do_part = match self.c_stack().pop() {
            Control::Do(do_part, _) if !self.c_stack().underflow() => do_part,
            _ => {
                self.mismatch();
                return;
            }
        };
        self.compile_word(idx);
        self.data_space().compile_isize(do_part as isize);
        let here = self.data_space().here();
        self.patch(do_part, here);
    }

    fn imm_loop(&mut self) {
        let idx = self.references().idx_loop;
        self.end_loop(idx);
    }
''')
fn(G, C, 'imm_plus_loop', '''
    fn imm_plus_loop(&mut self) {
        let idx = self.references().idx_plus_loop;
        self.end_loop(idx);
    }
''')
fn(G, C, 'imm_do', '''
    fn begin_loop(&mut self, idx: usize) {
        self.compile_word(idx);
        self.data_space().compile_isize(0);
        let here = self.data_space().here();
        self.c_stack().push(Control::Do(here, here));
    }

    fn imm_do(&mut self) {
        let idx = self.references().idx_do;
        self.begin_loop(idx);
    }
''')
fn(G, C, 'imm_qdo', '''
    fn imm_qdo(&mut self) {
        let idx = self.references().idx_qdo;
        self.begin_loop(idx);
    }
''')
fn(G, C, 'imm_label', '''
    fn imm_label(&mut self) {
        let n = self.s_stack().pop() as usize;
        if n == 0 || n >= self.labels().capacity() {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let pending = self.forward_bitset().contains(n as u32);
        if !pending && self.resolved_bitset().contains(n as u32) {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let here = self.data_space().here();
        if pending {
            // Resolve forward references.
            let mut p = self.labels()[n];
            loop {
                let next = unsafe { self.data_space().get_usize(p) };
                unsafe { self.data_space().put_usize(here, p) };
                p = next;
                if p == 0 {
                    break;
                }
            }
            self.forward_bitset_mut().remove(n as u32);
        }
        self.labels_mut()[n] = here;
        self.resolved_bitset_mut().add(n as u32);
    }
''')
fn(G, C, 'imm_goto', '''
    fn imm_goto(&mut self) {
        let n = self.s_stack().pop() as usize;
        if !(1..self.labels().capacity()).contains(&n) {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let forward = self.forward_bitset().contains(n as u32);
        let resolved = self.resolved_bitset().contains(n as u32);
        let target = if forward || resolved { self.labels()[n] } else { 0 };
        let after = self.compile_branch(target);
        if forward || !resolved {
            self.labels_mut()[n] = after - mem::size_of::<isize>();
        }
        if !forward && !resolved {
            self.forward_bitset_mut().add(n as u32);
        }
    }
''')
fn(G, C, 'activate', '''
    fn return_to_caller(&mut self) {
        let ip = self.r_stack().pop() as usize;
        self.state().instruction_pointer = ip;
    }

    fn activate(&mut self) {
        let i = self.s_stack().pop().wrapping_sub(1) as usize;
        if i >= NUM_TASKS {
            self.return_to_caller();
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
            return;
        }
        let me = self.current_task();
        let code = self.state().instruction_pointer;
        self.set_current_task(i);
        self.reset();
        self.state().instruction_pointer = code;
        self.set_current_task(me);
        self.set_awake(i, true);
        self.return_to_caller();
    }
''')
fn(G, C, 'suspend', '''
    fn set_task_awake(&mut self, awake: bool) {
        let id = self.s_stack().pop() as usize;
        if id == 0 || id > NUM_TASKS {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        } else {
            self.set_awake(id - 1, awake);
        }
    }

    fn suspend(&mut self) {
        self.set_task_awake(false);
    }
''')
fn(G, C, 'resume', '''
    fn resume(&mut self) {
        self.set_task_awake(true);
    }
''')
fn(G, C, 'pause', '''
    fn pause(&mut self) {
        let mut next = (self.current_task() + 1) % NUM_TASKS;
        while !self.awake(next) {
            next = (next + 1) % NUM_TASKS;
        }
        self.set_current_task(next);
    }
''')
fn(G, C, 'check_stacks', '''
    fn check_stacks(&mut self) {
        let error = if self.s_stack().overflow() {
            Some(STACK_OVERFLOW)
        } else if self.s_stack().underflow() {
            Some(STACK_UNDERFLOW)
        } else if self.r_stack().overflow() {
            Some(RETURN_STACK_OVERFLOW)
        } else if self.r_stack().underflow() {
            Some(RETURN_STACK_UNDERFLOW)
        } else if self.c_stack().overflow() || self.c_stack().underflow() {
            Some(CONTROL_STRUCTURE_MISMATCH)
        } else if self.f_stack().overflow() {
            Some(FLOATING_POINT_STACK_OVERFLOW)
        } else if self.f_stack().underflow() {
            Some(FLOATING_POINT_STACK_UNDERFLOW)
        } else {
            None
        };
        if let Some(e) = error {
            self.abort_with(e);
        }
    }
''')
fn(G, C, 'abort_with', '''
    fn abort_with(&mut self, e: Exception) {
        self.set_error(Some(e));
        self.clear_stacks();
        let wp = self.state().word_pointer;
        self.state().aborted_word_pointer = wp;
        let handler = self.handler();
        if handler >= self.wordlist().len() {
            return;
        }
        self.execute_word(handler);
    }
''')
fn(G, C, 'error', '''
    fn error(&mut self) {
        let code = self.last_error().map_or(0, |e| e.into());
        self.s_stack().push(code);
    }
''')
fn(G, C, 'dot_error', '''
    fn dot_error(&mut self) {
        if let Some(e) = self.last_error() {
            if let Some(buf) = self.output_buffer().as_mut() {
                buf.push_str(exception::description(e));
            }
        }
    }
''')
fn(G, C, 'reset', None)
fn(G, C, 'set_source_id', '''
    fn set_source_id(&mut self, id: isize) {
        let valid = if id <= 0 {
            id == 0
        } else {
            let i = id as usize - 1;
            i < self.sources().len() && self.sources()[i].is_some() && self.lines()[i].is_some()
        };
        if valid {
            self.state().source_id = id;
        } else {
            self.abort_with(INVALID_NUMERIC_ARGUMENT);
        }
    }
''')
fn(G, C, 'postpone', '''
    fn postpone(&mut self) {
        self.parse_word();
        let token = self.last_token().take().expect("token");
        if token.is_empty() {
            self.set_last_token(token);
            self.abort_with(UNEXPECTED_END_OF_FILE);
            return;
        }
        let found = self.find(&token);
        self.set_last_token(token);
        if let Some(xt) = found {
            self.compile_integer(xt as isize);
            let idx = self.references().idx__postpone;
            self.compile_word(idx);
        } else {
            self.abort_with(UNDEFINED_WORD);
        }
    }
''')
fn(G, C, 'compile_token', '''
    /// Evaluate the token as a number.
    fn evaluate_number(&mut self, token: &str) -> bool {
        self.set_error(None);
        self.evaluate_integer(token);
        if self.last_error().is_some() {
            self.set_error(None);
            self.evaluate_float(token);
        }
        self.last_error().is_none()
    }

    fn compile_token(&mut self) {
        let token = self.last_token().take().expect("token");
        if let Some(xt) = self.find(&token) {
            self.set_last_token(token);
            if self.wordlist()[xt].is_immediate() {
                self.execute_word(xt);
            } else {
                let compilation_semantics = self.wordlist()[xt].compilation_semantics;
                compilation_semantics(self, xt);
            }
            return;
        }
        let done = self.evaluate_number(&token);
        self.set_last_token(token);
        if !done {
            self.abort_with(UNDEFINED_WORD);
        }
    }
''')
fn(G, C, 'interpret_token', '''
    fn interpret_token(&mut self) {
        let token = self.last_token().take().expect("last token");
        let found = self.find(&token);
        let done = found.is_some() || self.evaluate_number(&token);
        self.set_last_token(token);
        match found {
            Some(xt) if self.wordlist()[xt].is_compile_only() => {
                self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD)
            }
            Some(xt) => self.execute_word(xt),
            None => {
                if !done {
                    self.abort_with(UNDEFINED_WORD);
                }
            }
        }
    }
''')
fn(G, C, 'define', '''
    fn define(&mut self, action: fn(&mut Self), compilation_semantics: fn(&mut Self, usize)) {
        self.parse_word();
        let mut name = self.last_token().take().expect("last token");
        name.make_ascii_lowercase();
        let known = self.find(&name).is_some();
        if known {
            if let Some(buf) = self.output_buffer().as_mut() {
                buf.push_str("Redefining ");
                buf.push_str(&name);
            }
        }
        if name.is_empty() {
            self.set_last_token(name);
            self.abort_with(UNEXPECTED_END_OF_FILE);
            return;
        }
        let nfa = self.data_space().compile_str(&name);
        self.data_space().align();
        let dfa = self.data_space().here();
        self.wordlist_mut()
            .push(&name, Word::new(action, compilation_semantics, nfa, dfa));
        self.set_last_token(name);
    }
''')
fn(G, C, 'colon', '''
    fn colon(&mut self) {
        self.define(Core::nest, Core::compile_nest);
        if self.last_error().is_some() {
            return;
        }
        self.right_bracket();
        let def = self.wordlist().last;
        self.compile_nest_code(def);
        self.wordlist_mut()[def].set_hidden(true);
    }
''')
fn(G, C, 'semicolon', '''
    fn semicolon(&mut self) {
        let unbalanced = !self.c_stack().is_empty() || self.forward_bitset().layer3() != 0;
        if unbalanced {
            self.abort_with(CONTROL_STRUCTURE_MISMATCH);
        } else {
            let idx = self.references().idx_exit;
            let compile = self.wordlist()[idx].compilation_semantics;
            compile(self, idx);
            let def = self.wordlist().last;
            self.wordlist_mut()[def].set_hidden(false);
        }
        self.left_bracket();
    }
''')
fn(G, C, 'unmark', '''
    fn unmark(&mut self) {
        let wp = self.state().word_pointer;
        let nfa = self.wordlist()[wp].nfa();
        let dfa = self.wordlist()[wp].dfa();
        let cell = mem::size_of::<usize>();
        for i in 0..BUCKET_SIZE {
            let head = unsafe { self.data_space().get_usize(dfa + (i + 1) * cell) };
            self.wordlist_mut().buckets[i] = head;
        }
        let last = unsafe { self.data_space().get_usize(dfa) };
        self.wordlist_mut().last = last;
        self.wordlist_mut().truncate(wp);
        self.data_space().truncate(nfa);
    }
''')
fn(G, C, 'marker', '''
    fn marker(&mut self) {
        let last = self.wordlist().last;
        let saved = self.wordlist().buckets;
        self.wordlist_mut().temp_buckets = saved;
        self.define(Core::unmark, Core::compile_unmark);
        if self.last_error().is_none() {
            self.data_space().compile_usize(last);
            for head in saved.iter() {
                self.data_space().compile_usize(*head);
            }
        }
    }
''')
fn(G, C, 'xdoes', '''
    fn xdoes(&mut self) {
        let wp = self.state().word_pointer;
        let (dfa, doer) = {
            let word = &self.wordlist()[wp];
            (word.dfa(), word.doer)
        };
        let ip = self.state().instruction_pointer;
        self.r_stack().push(ip as isize);
        self.state().instruction_pointer = doer;
        self.s_stack().push(dfa as isize);
    }
''')
fn(G, C, 'does', '''
    fn does(&mut self) {
        let refs = [self.references().idx__does, self.references().idx_exit];
        for idx in refs.iter() {
            self.s_stack().push(*idx as isize);
            self.compile_comma();
        }
    }
''')
fn(G, C, 'p_move', '''
    fn in_data_space(&mut self, addr: usize, u: usize) -> bool {
        let start = self.data_space().start();
        let limit = self.data_space().limit();
        start < addr && addr <= limit && u <= limit - addr
    }

    fn p_move(&mut self) {
        let (addr1, addr2, u) = self.s_stack().pop3();
        if u <= 0 {
            return;
        }
        let (src, dst, u) = (addr1 as usize, addr2 as usize, u as usize);
        if !self.in_data_space(src, u) || !self.in_data_space(dst, u) {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        unsafe {
            if src < dst {
                let mut i = u;
                while i > 0 {
                    i -= 1;
                    let value = self.data_space().get_u8(src + i);
                    self.data_space().put_u8(value, dst + i);
                }
            } else {
                for i in 0..u {
                    let value = self.data_space().get_u8(src + i);
                    self.data_space().put_u8(value, dst + i);
                }
            }
        }
    }
''')
fn(G, C, 'fetch', '''
    fn fetch(&mut self) {
        let addr = self.s_stack().pop() as usize;
        let start = self.data_space().start();
        let limit = self.data_space().limit();
        if addr <= start || addr > limit || limit - addr < mem::size_of::<isize>() {
            self.abort_with(INVALID_MEMORY_ADDRESS);
            return;
        }
        let value = unsafe { self.data_space().get_isize(addr) };
        self.s_stack().push(value);
    }
''')
fn(G, C, 'nest', '''
    fn nest(&mut self) {
        let wp = self.state().word_pointer;
        let body = self.wordlist()[wp].dfa();
        let return_to = self.state().instruction_pointer as isize;
        self.state().instruction_pointer = body;
        self.r_stack().push(return_to);
    }
''')
fn(G, C, 'exit', '''
    fn exit(&mut self) {
        let ip = self.r_stack().pop();
        self.state().instruction_pointer = ip as usize;
    }
''')
txt(G, K, '''    fn s_stack(&mut self) -> &mut Stack<isize> {
        &mut self.tasks[self.current_task].s_stk
''', '''    fn s_stack(&mut self) -> &mut Stack<isize> {
        let task = &mut self.tasks[self.current_task];
        &mut task.s_stk
''')
