"""planted bugs for C16"""
import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed, CDEMO
from seedlib import JS, js, c

seed('vm-args-this-leak', 'C16', [('src/mjs_exec.c', 'if (prev_opcode != OP_GET) {', 'if (prev_opcode == OP_PUSH_FUNC) {')], JS,
     'a function that is itself the result of a method call is called: o.f()()', '`this` of the first call leaks into the second',
     [js('''let o = { v: 1, get: function() { return function() { return this; }; } };
ok(o.get()() === undefined, "plain call has no this");
ok(o.get() !== undefined, "x");''')])
seed('vm-redeclare', 'C16', [('src/mjs_exec.c', 'if (mjs_get_own_property_v(mjs, obj, key) == NULL) {', 'if (mjs_get_v(mjs, obj, key) == MJS_UNDEFINED || mjs_is_function(mjs_get_v(mjs, obj, key))) {')], JS,
     'a variable that holds a function is declared again without a value', 'the variable loses its value',
     [js("""let f = function() { return 3; };
let f;
ok(typeof(f) === "function", "f lost");""")])
seed('vm-continue-scope', 'C16', [('src/mjs_exec.c', """          mjs->scopes.len = scopes_len * sizeof(mjs_val_t);

          /* jump to "continue" address */""", """          if (mjs_stack_size(&mjs->scopes) - scopes_len < 4) {
            mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
          }

          /* jump to "continue" address */""")], JS, 'continue inside four or more nested blocks of a loop body',
     'scopes of the blocks stay open', [js("""let x = 1;
for (let i = 0; i < 3; i++) { ok(x === 1, x); { { { { let x = 5; if (x === 5) continue; } } } } }
ok(x === 1, x);""")])
