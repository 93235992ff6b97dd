"""group G: accessors, storage, memory, flags, units and float words."""
from refacs import fn, txt, C, M, P, F, L, O, T, FL, X
G = 'G'
V, U, E, FA, EX = 'src/mock_vm.rs', 'src/units.rs', 'src/env.rs', 'src/facility.rs', 'src/exception.rs'
# mock VM: one helper for the current task
txt(G, V, '''    /// Advance time for 1ms.
    pub fn advance(&mut self) {
        self.now += 1_000_000;
    }
''', '''    fn task(&self) -> &Task {
        &self.tasks[self.current_task]
    }

    fn task_mut(&mut self) -> &mut Task {
        let i = self.current_task;
        &mut self.tasks[i]
    }

    /// Advance time for 1ms.
    pub fn advance(&mut self) {
        self.now += 1_000_000;
    }
''')
for a, b in (('&self.tasks[self.current_task].files', '&self.task().files'), ('&self.tasks[self.current_task].sources', '&self.task().sources'),
             ('&self.tasks[self.current_task].lines', '&self.task().lines'), ('&mut self.tasks[self.current_task].files', '&mut self.task_mut().files'),
             ('&mut self.tasks[self.current_task].sources', '&mut self.task_mut().sources'), ('&mut self.tasks[self.current_task].lines', '&mut self.task_mut().lines'),
             ('&mut self.tasks[self.current_task].s_stk', '&mut self.task_mut().s_stk'), ('&mut self.tasks[self.current_task].r_stk', '&mut self.task_mut().r_stk'),
             ('&mut self.tasks[self.current_task].c_stk', '&mut self.task_mut().c_stk'), ('&mut self.tasks[self.current_task].f_stk', '&mut self.task_mut().f_stk'),
             ('&mut self.tasks[self.current_task].state', '&mut self.task_mut().state'), ('self.tasks[self.current_task].state.source_id', 'self.task().state.source_id')):
    txt(G, V, '        ' + a + '\n', '        ' + b + '\n')
fn(G, V, 'input_buffer', '''
    fn input_buffer(&mut self) -> &mut Option<String> {
        let task = self.task_mut();
        match task.state.source_id {
            id if id > 0 => &mut task.lines[id as usize - 1],
            _ => &mut task.inbuf,
        }
    }
''')
fn(G, V, 'set_input_buffer', '''
    fn set_input_buffer(&mut self, buffer: String) {
        self.input_buffer().replace(buffer);
    }
''')
fn(G, V, 'set_current_task', '''
    fn set_current_task(&mut self, i: usize) {
        if i >= NUM_TASKS {
            return;
        }
        self.current_task = i;
    }
''')
fn(G, V, 'awake', '''
    fn awake(&self, i: usize) -> bool {
        self.tasks.get(i).map_or(false, |t| t.awake)
    }
''')
fn(G, V, 'set_awake', '''
    fn set_awake(&mut self, i: usize, v: bool) {
        if let Some(t) = self.tasks.get_mut(i) {
            t.awake = v;
        }
    }
''')
# stacks
txt(G, C, '''        let len = self.len.wrapping_add(1);
        self.len = len;
        self.inner[len.wrapping_sub(1) as usize] = v;
''', '''        self.inner[self.len as usize] = v;
        self.len = self.len.wrapping_add(1);
''')
txt(G, C, '''        let result = self.inner[self.len.wrapping_sub(1) as usize];
        self.len = self.len.wrapping_sub(1);
        result
''', '''        self.len = self.len.wrapping_sub(1);
        self.inner[self.len as usize]
''')
txt(G, C, '''        let len = self.len.wrapping_add(2);
        self.len = len;
        self.inner[self.len.wrapping_sub(2) as usize] = v1;
        self.inner[self.len.wrapping_sub(1) as usize] = v2;
''', '''        self.push(v1);
        self.push(v2);
''')
txt(G, C, '''        let len = self.len.wrapping_add(3);
        self.len = len;
        self.inner[self.len.wrapping_sub(3) as usize] = v1;
        self.inner[self.len.wrapping_sub(2) as usize] = v2;
        self.inner[self.len.wrapping_sub(1) as usize] = v3;
''', '''        for &v in [v1, v2, v3].iter() {
            self.push(v);
        }
''')
txt(G, C, '''        let result = (
            self.inner[self.len.wrapping_sub(2) as usize],
            self.inner[self.len.wrapping_sub(1) as usize],
        );
        self.len = self.len.wrapping_sub(2);
        result
''', '''        let v2 = self.pop();
        let v1 = self.pop();
        (v1, v2)
''')
txt(G, C, '''        let result = (
            self.inner[self.len.wrapping_sub(3) as usize],
            self.inner[self.len.wrapping_sub(2) as usize],
            self.inner[self.len.wrapping_sub(1) as usize],
        );
        self.len = self.len.wrapping_sub(3);
        result
''', '''        let v3 = self.pop();
        let (v1, v2) = self.pop2();
        (v1, v2, v3)
''')
txt(G, C, '''        self.len = 0;
        for i in 0..256 {
            self.inner[i] = self.canary;
        }
''', '''        let canary = self.canary;
        for v in self.inner.iter_mut() {
            *v = canary;
        }
        self.len = 0;
''')
txt(G, C, '''        (self.inner[255] != self.canary) || (self.len > 128)
''', '''        if self.len > 128 {
            return true;
        }
        self.inner[255] != self.canary
''')
txt(G, C, '''        (self.inner[64] != self.canary) || (self.len > 64 && self.len <= 128)
''', '''        match self.len {
            65..=128 => true,
            _ => self.inner[64] != self.canary,
        }
''')
txt(G, C, '''        if self.len == 0 {
        } else {
            for i in 0..self.len {
                let v = self[i];
                match write!(f, "{} ", v) {
                    Ok(_) => {}
                    Err(e) => {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
''', '''        for v in self.as_slice() {
            write!(f, "{} ", v)?;
        }
        Ok(())
''')
txt(G, C, '''        if self.len == 0 {
        } else {
            for i in 0..self.len {
                let v = self[i];
                match write!(f, "{:.7} ", v) {
                    Ok(_) => {}
                    Err(e) => {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
''', '''        let mut i = 0;
        while i < self.len {
            write!(f, "{:.7} ", self[i])?;
            i += 1;
        }
        Ok(())
''')
# dictionary
txt(G, C, '''        let mut hash: u32 = 5381;
        for c in name.bytes() {
            hash = hash
                .wrapping_shl(5)
                .wrapping_add(hash)
                .wrapping_add(c.to_ascii_lowercase() as u32); /* hash * 33 + c */
        }
        hash
''', '''        name.bytes().fold(5381u32, |hash, c| {
            hash.wrapping_mul(33)
                .wrapping_add(u32::from(c.to_ascii_lowercase()))
        })
''')
txt(G, C, '''        self.words.truncate(i);
        self.last = self.words.len() - 1;
''', '''        while self.words.len() > i {
            self.words.pop();
        }
        self.last = self.words.len() - 1;
''')
txt(G, C, '''        let result = self.words.binary_search_by(|w| w.nfa().cmp(&addr));
        match result {
            Ok(xt) => Some(xt),
            Err(xt) => {
                if xt == 0 {
                    None
                } else {
                    Some(xt - 1)
                }
            }
        }
''', '''        match self.words.binary_search_by(|w| w.nfa.cmp(&addr)) {
            Ok(xt) => Some(xt),
            Err(0) => None,
            Err(xt) => Some(xt - 1),
        }
''')
# memory
fn(G, M, 'start', '''
    fn start(&self) -> usize {
        self.inner as usize
    }
''')
fn(G, M, 'set_here', '''
    fn set_here(&mut self, pos: usize) -> Result<(), Exception> {
        // here is allowed to be 1 place after the last memory address.
        let len = pos.wrapping_sub(self.start());
        if len > self.cap {
            return Err(INVALID_MEMORY_ADDRESS);
        }
        self.len = len;
        Ok(())
    }
''')
txt(G, M, '''        unsafe { self.inner.offset(self.cap as isize) as usize }
''', '''        self.inner as usize + self.cap
''')
txt(G, M, '''        unsafe { self.inner.offset(self.len as isize) as usize }
''', '''        unsafe { self.inner.add(self.len) as usize }
''')
fn(G, M, 'has', '''
    fn has(&self, pos: usize) -> bool {
        (self.start()..self.limit()).contains(&pos)
    }
''')
fn(G, M, 'get_u8', '''
    unsafe fn get_u8(&self, addr: usize) -> u8 {
        (addr as *const u8).read()
    }
''')
fn(G, M, 'get_isize', '''
    unsafe fn get_isize(&self, addr: usize) -> isize {
        self.get_usize(addr) as isize
    }
''')
fn(G, M, 'get_str', '''
    unsafe fn get_str(&self, addr: usize) -> &str {
        self.str_from_raw_parts(addr + mem::size_of::<usize>(), self.get_usize(addr))
    }
''')
fn(G, M, 'str_from_raw_parts', '''
    unsafe fn str_from_raw_parts(&self, addr: usize, len: usize) -> &str {
        std::str::from_utf8_unchecked(self.buffer_from_raw_parts(addr, len))
    }
''')
fn(G, M, 'put_u8', '''
    unsafe fn put_u8(&mut self, v: u8, pos: usize) {
        (pos as *mut u8).write(v)
    }
''')
fn(G, M, 'put_isize', '''
    unsafe fn put_isize(&mut self, v: isize, pos: usize) {
        self.put_usize(v as usize, pos)
    }
''')
fn(G, M, 'compile_u8', '''
    fn compile_u8(&mut self, v: u8) {
        let here = self.here();
        if here >= self.limit() {
            panic!("Error: compile_u8 while space is full.");
        }
        unsafe {
            self.put_u8(v, here);
        }
        self.allot(1);
    }
''')
fn(G, M, 'compile_isize', '''
    fn compile_isize(&mut self, v: isize) {
        self.compile_usize(v as usize);
    }
''')
fn(G, M, 'compile_f64', '''
    fn compile_f64(&mut self, v: f64) {
        let here = self.here();
        let end = here + mem::size_of::<f64>();
        if end > self.limit() {
            panic!("Error: compile_f64 while space is full.");
        }
        unsafe { self.put_f64(v, here) };
        let _ = self.set_here(end);
    }
''')
fn(G, M, 'compile_str', '''
    fn compile_str(&mut self, s: &str) -> usize {
        let here = self.here();
        let len = s.len();
        if here + mem::size_of::<usize>() + len > self.limit() {
            panic!("Error: compile_str while space is full.");
        }
        self.compile_usize(len);
        for byte in s.bytes() {
            self.compile_u8(byte);
        }
        here
    }
''')
fn(G, M, 'aligned_f64', '''
    fn aligned_f64(pos: usize) -> usize {
        let align = mem::align_of::<f64>();
        pos.wrapping_add(align - 1) & !(align - 1)
    }
''')
fn(G, M, 'align_f64', '''
    fn align_f64(&mut self) {
        let pos = Self::aligned_f64(self.here());
        let _ = self.set_here(pos);
    }
''')
fn(G, M, 'allot', '''
    fn allot(&mut self, v: isize) {
        let here = self.here().wrapping_add(v as usize);
        let _ = self.set_here(here);
    }
''')
# units
for n, k in (('from_mm', 'MILLIMETER'), ('from_um', 'MICROMETER'), ('from_hour', 'HOUR'), ('from_minute', 'MINUTE'), ('from_msec', 'MILLISECOND'),
             ('from_usec', 'MICROSECOND'), ('rpm', 'RPM')):
    fn(G, U, n, '''
    fn %s(&mut self) {
        self.scale(%s);
    }
''' % (n, k))
fn(G, U, 'from_meter', '''
    fn scale(&mut self, unit: f64) {
        let t = self.f_stack().pop();
        self.f_stack().push(t * unit);
    }

    fn from_meter(&mut self) {
        self.scale(METER);
    }
''')
fn(G, U, 'from_rad', '''
    fn from_rad(&mut self) {
        let f_stack = self.f_stack();
        let t = f_stack.pop();
        f_stack.push(t);
    }
''')
fn(G, U, 'mm_per_min', '''
    fn mm_per_min(&mut self) {
        self.from_mm();
        let t = self.f_stack().pop();
        self.f_stack().push(t / MINUTE);
    }
''')
fn(G, E, 'max_n', '''
    fn max_n(&mut self) {
        self.s_stack().push(std::isize::MAX);
    }
''')
fn(G, E, 'max_u', '''
    fn max_u(&mut self) {
        self.s_stack().push(!0);
    }
''')
fn(G, FA, 'mtime', '''
    fn mtime(&mut self) {
        let ms = (self.system_time_ns() / 1_000_000) as isize;
        self.s_stack().push(ms);
    }
''')
# floats
fn(G, FL, 'float_plus', '''
    fn float_plus(&mut self) {
        let size = mem::size_of::<f64>() as isize;
        let v = self.s_stack().pop();
        self.s_stack().push(size.wrapping_add(v));
    }
''')
fn(G, FL, 'floats', '''
    fn floats(&mut self) {
        let v = self.s_stack().pop();
        self.s_stack().push(v << 3);
    }
''')
fn(G, FL, 'fstore', '''
    fn fstore(&mut self) {
        let pos = self.s_stack().pop() as usize;
        let v = self.f_stack().pop();
        let pos = DataSpace::aligned_f64(pos);
        if !self.data_space().has(pos) {
            return self.abort_with(INVALID_MEMORY_ADDRESS);
        }
        unsafe { self.data_space().put_f64(v, pos) };
    }
''')
fn(G, FL, 'fswap', '''
    fn fswap(&mut self) {
        let (n, t) = self.f_stack().pop2();
        self.f_stack().push2(t, n);
    }
''')
fn(G, FL, 'fnip', '''
    fn fnip(&mut self) {
        let (_, t) = self.f_stack().pop2();
        self.f_stack().push(t);
    }
''')
fn(G, FL, 'fdup', '''
    fn fdup(&mut self) {
        match self.f_stack().last() {
            Some(t) => self.f_stack().push(t),
            None => {}
        }
    }
''')
fn(G, FL, 'fover', '''
    fn fover(&mut self) {
        let (n, t) = self.f_stack().pop2();
        self.f_stack().push2(n, t);
        self.f_stack().push(n);
    }
''')
fn(G, FL, 'fstar', '''
    fn fstar(&mut self) {
        let (n, t) = self.f_stack().pop2();
        self.f_stack().push(t * n);
    }
''')
fn(G, FL, 'f_zero_less_than', '''
    fn f_zero_less_than(&mut self) {
        let negative = self.f_stack().pop() < 0.0;
        self.s_stack().push(-(negative as isize));
    }
''')
fn(G, FL, 'fmax', '''
    fn fmax(&mut self) {
        let t = self.f_stack().pop();
        let n = self.f_stack().pop();
        self.f_stack().push(n.max(t));
    }
''')
fn(G, FL, 'fsincos', '''
    fn fsincos(&mut self) {
        let t = self.f_stack().pop();
        self.f_stack().push(t.sin());
        self.f_stack().push(t.cos());
    }
''')
fn(G, FL, 'fatan2', '''
    fn fatan2(&mut self) {
        let (y, x) = self.f_stack().pop2();
        self.f_stack().push(f64::atan2(y, x));
    }
''')
fn(G, FL, 'fnegate', '''
    fn fnegate(&mut self) {
        let t = -self.f_stack().pop();
        self.f_stack().push(t);
    }
''')
# words and small state words
fn(G, C, 'dup', '''
    fn dup(&mut self) {
        let v = self.s_stack().last().unwrap();
        self.s_stack().push(v);
    }
''')
fn(G, C, 'nip', '''
    fn nip(&mut self) {
        let t = self.s_stack().pop();
        let _ = self.s_stack().pop();
        self.s_stack().push(t);
    }
''')
fn(G, C, 'minus_rot', '''
    fn minus_rot(&mut self) {
        let c = self.s_stack().pop();
        let (a, b) = self.s_stack().pop2();
        self.s_stack().push(c);
        self.s_stack().push2(a, b);
    }
''')
fn(G, C, 'depth', '''
    fn depth(&mut self) {
        let len = self.s_stack().len() as isize;
        self.s_stack().push(len);
    }
''')
fn(G, C, 'two_r_from', '''
    fn two_r_from(&mut self) {
        let t = self.r_stack().pop();
        let n = self.r_stack().pop();
        self.s_stack().push2(n, t);
    }
''')
fn(G, C, 'minus', '''
    fn minus(&mut self) {
        let t = self.s_stack().pop();
        let n = self.s_stack().pop();
        self.s_stack().push(n.wrapping_add(t.wrapping_neg()));
    }
''')
fn(G, C, 'invert', '''
    fn invert(&mut self) {
        let t = self.s_stack().pop();
        self.s_stack().push(-1 ^ t);
    }
''')
fn(G, C, 'one_minus', '''
    fn one_minus(&mut self) {
        let t = self.s_stack().pop();
        self.s_stack().push(t.wrapping_add(-1));
    }
''')
