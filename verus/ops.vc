%% fn Add::add lemmas=arith_spec
    requires wf(self), wf(rhs), !add_ovf(self, rhs),
    ensures add_post(self, rhs, r, Ok(())),

%% fn Add::add:any of=Add::add name=op_add_any diverge lemmas=arith_spec
    requires wf(self), wf(rhs),
    ensures add_post(self, rhs, r, Ok(())),

%% fn Sub::sub lemmas=arith_spec
    requires wf(self), wf(rhs), !sub_ovf(self, rhs),
    ensures sub_post(self, rhs, r, Ok(())),

%% fn Sub::sub:any of=Sub::sub name=op_sub_any diverge lemmas=arith_spec
    requires wf(self), wf(rhs),
    ensures sub_post(self, rhs, r, Ok(())),

%% fn Mul::mul lemmas=mul_spec
    requires wf(self), wf(rhs), mag(self) == 0 || mag(rhs) == 0 || dg(self) + dg(rhs) <= 81,
    ensures mul_post(self, rhs, r, Ok(())),

%% fn Mul::mul:any of=Mul::mul name=op_mul_any diverge lemmas=mul_spec
    requires wf(self), wf(rhs),
    ensures mul_post(self, rhs, r, Ok(())),

%% fn Div::div lemmas=div_spec
    requires wf(self), wf(rhs), mag(rhs) != 0 && !div_ovf(self, rhs),
    ensures div_post(self, rhs, r, 4, Ok(())),

%% fn Div::div:any of=Div::div name=op_div_any diverge lemmas=div_spec
    requires wf(self), wf(rhs),
    ensures div_post(self, rhs, r, 4, Ok(())),

%% fn Rem::rem lemmas=rem_spec
    requires wf(self), wf(rhs), mag(rhs) != 0,
    ensures rem_post(self, rhs, r, Ok(())),

%% fn Rem::rem:any of=Rem::rem name=op_rem_any diverge lemmas=rem_spec
    requires wf(self), wf(rhs),
    ensures rem_post(self, rhs, r, Ok(())),

