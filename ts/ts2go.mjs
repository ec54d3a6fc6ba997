// ts2go.mjs REPO ENTRY.ts OUT.go OUT.mjs PACKAGE RUNTIME
// Bundles the TypeScript entry with the repository's sources (esbuild), and translates the bundle to Go on the
// runtime in harness/jsrt. The bundle itself is what the native replay runs on node.
import { createRequire } from "module";
import fs from "fs";
const require = createRequire("/opt/veriftools/node/node_modules/x.js");
const esbuild = require("esbuild");
const acorn = require("acorn");

const [repo, entry, outGo, outJs, pkg, runtime] = process.argv.slice(2);
const built = esbuild.buildSync({
  entryPoints: [entry], bundle: true, write: false, format: "esm", target: "es2018", charset: "utf8", logLevel: "error",
  alias: { "@repo": repo + "/src" }, absWorkingDir: "/",
  supported: { bigint: true, "class-field": true, "class-static-field": true, "for-await": true, "async-generator": true, "class-private-field": true, "class-private-method": true },
});
const js = built.outputFiles[0].text;
if (outJs) fs.writeFileSync(outJs, js);
const comments = [];
const ast = acorn.parse(js, { ecmaVersion: 2022, sourceType: "module", locations: true, onComment: comments });
// modules are the files of the bundle and where each begins
const modules = comments.filter((c) => c.type === "Line" && /^ \S*\.ts$/.test(c.value)).map((c) => [c.start, "/" + c.value.trim().replace(/^\/*/, "")]);
// origin names a function of the client for the evidence; the engine reads it from the line behind the function's head
let className = "";
function origin(n, name) {
  let f = "";
  for (const [at, file] of modules) if (at <= n.start) f = file;
  if (!name || !f.startsWith(repo + "/src/")) return "";
  return `//@ ${f.slice(repo.length + 1)} ${className ? className + "." : ""}${name}\n`;
}

class Unsupported extends Error {}
const bad = (n, w) => { throw new Unsupported(`${w || n.type} at bundle line ${n.loc && n.loc.start.line}`); };
const Q = (s) => JSON.stringify(s).replace(/[\u007f-\uffff]/g, (c) => "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0"));
// a Go string literal; lone surrogates become WTF-8 bytes
const GS = (s) => {
  let r = '"';
  for (const ch of s) {
    const c = ch.codePointAt(0);
    if (ch === '"' || ch === "\\") r += "\\" + ch;
    else if (c === 10) r += "\\n";
    else if (c < 32 || c === 127) r += "\\x" + c.toString(16).padStart(2, "0");
    else if (c < 127) r += ch;
    else if (c >= 0xd800 && c <= 0xdfff) r += "\\x" + (0xe0 | (c >> 12)).toString(16) + "\\x" + (0x80 | ((c >> 6) & 63)).toString(16) + "\\x" + (0x80 | (c & 63)).toString(16);
    else r += "\\U" + c.toString(16).padStart(8, "0");
  }
  return r + '"';
};
const V = (n) => "v_" + n.replace(/\$/g, "_S_").replace(/[^\w]/g, (c) => "_u" + c.charCodeAt(0).toString(16));

let out = [];
let uid = 0;
const tmp = (p) => `${p || "t"}__${++uid}`;
let ind = 1;
const emit = (s) => out.push("\t".repeat(ind) + s);

// ---- declarations
function patNames(p, a = []) {
  if (!p) return a;
  switch (p.type) {
    case "Identifier": a.push(p.name); break;
    case "ObjectPattern": for (const q of p.properties) patNames(q.type === "RestElement" ? q.argument : q.value, a); break;
    case "ArrayPattern": for (const q of p.elements) patNames(q, a); break;
    case "AssignmentPattern": patNames(p.left, a); break;
    case "RestElement": patNames(p.argument, a); break;
    case "MemberExpression": break;
    default: bad(p);
  }
  return a;
}
function varNames(n, a = new Set()) { // var declarations of a function body, not entering functions
  if (!n || typeof n !== "object") return a;
  if (Array.isArray(n)) { for (const x of n) varNames(x, a); return a; }
  if (/^(Function|ArrowFunction|Class)/.test(n.type || "")) return a;
  if (n.type === "VariableDeclaration" && n.kind === "var") for (const d of n.declarations) for (const x of patNames(d.id)) a.add(x);
  for (const k in n) if (k !== "loc") varNames(n[k], a);
  return a;
}
function lexNames(body) {
  const a = [];
  for (const s0 of body) {
    const s = s0.type === "ExportNamedDeclaration" && s0.declaration ? s0.declaration : s0;
    if (s.type === "VariableDeclaration" && s.kind !== "var") for (const d of s.declarations) patNames(d.id, a);
    if (s.type === "FunctionDeclaration" || s.type === "ClassDeclaration") a.push(s.id.name);
  }
  return a;
}

// ---- scopes: names that are bound; anything else is a global of the runtime
let scopes = [new Set()];
const bound = (n) => scopes.some((s) => s.has(n));
const withScope = (names, f) => { scopes.push(new Set(names)); try { return f(); } finally { scopes.pop(); } };

// ---- function contexts
// ctx: {kind, gen, labels:[{js:[names], go, loop, used}], tryDepth}
let ctx = null;
function captured(f) { // run f with its own output
  const o = out, i = ind; out = []; ind = 1;
  try { f(); return out; } finally { out = o; ind = i; }
}

function fnExpr(n, name, opts = {}) {
  const isArrow = n.type === "ArrowFunctionExpression";
  const save = ctx;
  ctx = { labels: [], tries: [], gen: !!n.generator, async: !!n.async, arrow: isArrow };
  const names = new Set();
  for (const p of n.params) patNames(p).forEach((x) => names.add(x));
  const body = n.body.type === "BlockStatement" ? n.body.body : null;
  const vs = body ? varNames(body) : new Set();
  const lex = body ? lexNames(body) : [];
  const self = n.type === "FunctionExpression" && n.id ? n.id.name : null;
  let lines;
  const inner = () => captured(() => {
    const all = new Set([...names, ...vs, ...lex]);
    if (self) { if (!all.has(self)) { emit(`var ${V(self)} V = self`); emit(`_ = ${V(self)}`); } }
    for (const x of all) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
    if (!isArrow && bodyUses(n, "arguments")) { emit(`${V("arguments")} := V(NewArr(args...))`); }
    n.params.forEach((p, i) => {
      if (p.type === "RestElement") bindPat(p.argument, `RestArgs(args, ${i})`);
      else bindPat(p, `Arg(args, ${i})`);
    });
    if (opts.prologue) opts.prologue();
    if (body) { hoistFns(body); for (const s of body) stmt(s); } else emit(`return ${expr(n.body)}`);
    emit("return nil");
  });
  lines = withScope([...names, ...vs, ...lex, ...(self ? [self] : []), ...(isArrow ? [] : ["arguments"])], inner);
  ctx = save;
  const ty = isArrow ? "func(args []V) V" : "func(this V, args []V, self *Fn) V";
  let code = lines.join("\n");
  if (n.generator) code = `return NewGen${n.async ? "Async" : ""}(func(yield_ func(V) V) V {\n${code}\n})`;
  else if (n.async) code = `return Async(func() V {\n${code}\n})`;
  const use = isArrow ? "_ = args\n" : "_, _, _ = this, args, self\n";
  return `${isArrow ? "Arrow" : "Func"}(${GS(name || (n.id && n.id.name) || "")}, ${n.params.length}, ${ty} {\n${origin(n, name || (n.id && n.id.name))}${use}${code}\n})`;
}
function bodyUses(n, name) {
  let f = false;
  (function w(x) {
    if (f || !x || typeof x !== "object") return;
    if (Array.isArray(x)) return x.forEach(w);
    if (x !== n && /^(FunctionDeclaration|FunctionExpression)$/.test(x.type || "")) return;
    if (x.type === "Identifier" && x.name === name) { f = true; return; }
    for (const k in x) if (k !== "loc") w(x[k]);
  })(n);
  return f;
}
function hoistFns(body) {
  for (const s0 of body) {
    const s = s0.type === "ExportNamedDeclaration" && s0.declaration ? s0.declaration : s0;
    if (s.type === "FunctionDeclaration") emit(`${V(s.id.name)} = ${fnExpr(s, s.id.name)}`);
  }
}

// bind a pattern to a Go expression (assigning to declared variables)
function bindPat(p, src) {
  switch (p.type) {
    case "Identifier": emit(`${V(p.name)} = ${src}`); break;
    case "MemberExpression": emit(assignTo(p, src)); break;
    case "AssignmentPattern": {
      const t = tmp();
      emit(`${t} := ${src}`);
      emit(`if ${t} == nil {`); ind++; emit(`${t} = ${expr(p.right, p.left.name)}`); ind--; emit("}");
      bindPat(p.left, t); break;
    }
    case "ObjectPattern": {
      const t = tmp(), used = [];
      emit(`${t} := NeedObj(${src})`);
      emit(`_ = ${t}`);
      for (const q of p.properties) {
        if (q.type === "RestElement") { bindPat(q.argument, `ObjRest(${[t, ...used].join(", ")})`); continue; }
        const k = q.computed ? `Key(${expr(q.key)})` : GS(keyName(q.key));
        used.push(k);
        bindPat(q.value, `Get(${t}, ${k})`);
      }
      break;
    }
    case "ArrayPattern": {
      const t = tmp();
      emit(`${t} := IterAll(${src})`);
      emit(`_ = ${t}`);
      p.elements.forEach((q, i) => {
        if (!q) return;
        if (q.type === "RestElement") bindPat(q.argument, `RestArgs(${t}, ${i})`);
        else bindPat(q, `Arg(${t}, ${i})`);
      });
      break;
    }
    default: bad(p);
  }
}
const keyName = (k) => (k.type === "Identifier" ? k.name : k.type === "PrivateIdentifier" ? "#" + k.name : k.type === "Literal" ? String(k.value) : bad(k));

// ---- expressions
const BIN = { "+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Mod", "**": "Pow", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "Shl", ">>": "Shr", ">>>": "Ushr" };
const CMP = { "===": "SEq", "!==": "!SEq", "==": "LEq", "!=": "!LEq", "<": "Lt", ">": "Gt", "<=": "Le", ">=": "Ge", instanceof: "InstanceOf", in: "In" };
function num(v) { return Number.isInteger(v) && !Object.is(v, -0) && Math.abs(v) <= 2 ** 53 ? `Int(${v})` : `float64(${v === Infinity ? "INF" : v})`; }

// cond gives a Go bool
function cond(n) {
  switch (n.type) {
    case "BinaryExpression":
      if (CMP[n.operator]) {
        if (n.left.type === "PrivateIdentifier") return `HasPriv(${expr(n.right)}, ${GS("#" + n.left.name)})`;
        return `${CMP[n.operator]}(${expr(n.left)}, ${expr(n.right)})`;
      }
      break;
    case "LogicalExpression":
      if (n.operator === "&&") return `(${cond(n.left)} && ${cond(n.right)})`;
      if (n.operator === "||") return `(${cond(n.left)} || ${cond(n.right)})`;
      break;
    case "UnaryExpression":
      if (n.operator === "!") return `!${cond(n.argument)}`;
      break;
    case "Literal":
      if (typeof n.value === "boolean") return String(n.value);
  }
  return `Truthy(${expr(n)})`;
}
function args(list) {
  if (list.some((a) => a.type === "SpreadElement")) {
    return `Spread(${list.map((a) => (a.type === "SpreadElement" ? `SpreadOf(${expr(a.argument)})` : `V(${expr(a)})`)).join(", ")})...`;
  }
  return list.map((a) => expr(a)).join(", ");
}
const comma = (a) => (a ? ", " + a : "");
function fnBlock(f) { // statements in an expression: func() V {...}()
  const save = ctx;
  const lines = captured(f);
  ctx = save;
  return `func() V {\n${lines.join("\n")}\n}()`;
}
function thisExpr() { return "this"; }
function assignTo(target, src) { // a Go statement
  if (target.type === "Identifier") {
    if (!bound(target.name)) bad(target, "assignment to unbound " + target.name);
    return `${V(target.name)} = ${src}`;
  }
  if (target.type === "MemberExpression") {
    if (target.object.type === "Super") bad(target);
    return target.computed ? `PutI(${expr(target.object)}, ${expr(target.property)}, ${src})` : `Put(${expr(target.object)}, ${GS(keyName(target.property))}, ${src})`;
  }
  bad(target);
}
function expr(n, name) {
  switch (n.type) {
    case "Literal":
      if (n.regex) return `NewRegex(${GS(n.regex.pattern)}, ${GS(n.regex.flags)})`;
      if (n.bigint != null) return `BigLit(${GS(n.bigint)})`;
      if (n.value === null) return "Null";
      if (typeof n.value === "string") return `V(${GS(n.value)})`;
      if (typeof n.value === "number") return `V(${num(n.value)})`;
      return `V(${n.value})`;
    case "TemplateLiteral": {
      const parts = [];
      n.quasis.forEach((q, i) => {
        if (q.value.cooked) parts.push(`V(${GS(q.value.cooked)})`);
        if (n.expressions[i]) parts.push(expr(n.expressions[i]));
      });
      return `Cat(${parts.join(", ")})`;
    }
    case "Identifier":
      if (bound(n.name)) return V(n.name);
      if (n.name === "undefined") return "V(nil)";
      return `Global(${GS(n.name)})`;
    case "ThisExpression": return thisExpr();
    case "AwaitExpression": return `Await(${expr(n.argument)})`;
    case "YieldExpression":
      if (n.delegate) return `YieldAll(yield_, ${expr(n.argument)})`;
      return `yield_(${n.argument ? expr(n.argument) : "nil"})`;
    case "FunctionExpression": case "ArrowFunctionExpression": return fnExpr(n, (n.id && n.id.name) || name);
    case "ClassExpression": return classExpr(n, name);
    case "ParenthesizedExpression": return expr(n.expression, name);
    case "SequenceExpression": return `Seq(${n.expressions.map((e) => expr(e)).join(", ")})`;
    case "ArrayExpression":
      if (n.elements.some((e) => !e)) bad(n, "array hole");
      return `NewArr(${args(n.elements)})`;
    case "ObjectExpression": {
      if (n.properties.every((p) => p.type === "Property" && p.kind === "init" && !p.computed)) {
        return `NewObj(${n.properties.map((p) => `${GS(keyName(p.key))}, ${p.method ? fnExpr(p.value, keyName(p.key)) : expr(p.value, keyName(p.key))}`).join(", ")})`;
      }
      return fnBlock(() => {
        const o = tmp("o");
        emit(`${o} := NewObj()`);
        for (const p of n.properties) {
          if (p.type === "SpreadElement") emit(`ObjAssign(${o}, ${expr(p.argument)})`);
          else if (p.kind === "get") emit(`DefGetter(${o}, ${p.computed ? `Key(${expr(p.key)})` : GS(keyName(p.key))}, ${fnExpr(p.value)})`);
          else if (p.kind === "set") emit(`DefSetter(${o}, ${p.computed ? `Key(${expr(p.key)})` : GS(keyName(p.key))}, ${fnExpr(p.value)})`);
          else emit(`PutI(${o}, ${p.computed ? expr(p.key) : `V(${GS(keyName(p.key))})`}, ${expr(p.value)})`);
        }
        emit(`return ${o}`);
      });
    }
    case "UnaryExpression":
      switch (n.operator) {
        case "!": return `V(${cond(n)})`;
        case "-":
          if (n.argument.type === "Literal" && typeof n.argument.value === "number" && n.argument.value !== 0) return `V(${num(-n.argument.value)})`;
          return `Neg(${expr(n.argument)})`;
        case "+": return `ToNumber(${expr(n.argument)})`;
        case "~": return `BitNot(${expr(n.argument)})`;
        case "typeof":
          if (n.argument.type === "Identifier" && !bound(n.argument.name)) return `TypeOfGlobal(${GS(n.argument.name)})`;
          return `TypeOf(${expr(n.argument)})`;
        case "void": return `Void(${expr(n.argument)})`;
        case "delete": return `Delete(${expr(n.argument.object)}, ${n.argument.computed ? expr(n.argument.property) : `V(${GS(keyName(n.argument.property))})`})`;
      }
      bad(n);
    case "BinaryExpression":
      if (CMP[n.operator]) return `V(${cond(n)})`;
      return `${BIN[n.operator] || bad(n, "operator " + n.operator)}(${expr(n.left)}, ${expr(n.right)})`;
    case "LogicalExpression":
      return `${{ "&&": "AndV", "||": "OrV", "??": "NullishV" }[n.operator]}(${expr(n.left)}, func() V { return ${expr(n.right)} })`;
    case "ConditionalExpression":
      return `CondV(${cond(n.test)}, func() V { return ${expr(n.consequent)} }, func() V { return ${expr(n.alternate)} })`;
    case "AssignmentExpression": return assignExpr(n);
    case "UpdateExpression": {
      const op = n.operator === "++" ? "Inc" : "Dec";
      return fnBlock(() => {
        const [get, put] = ref(n.argument);
        const a = tmp(), b = tmp();
        emit(`${a} := ToNumeric(${get})`);
        emit(`${b} := ${op}(${a})`);
        emit(put(b));
        emit(`return ${n.prefix ? b : a}`);
      });
    }
    case "MemberExpression":
      if (n.object.type === "Super") return `SuperGet(super_, this, ${n.computed ? `Key(${expr(n.property)})` : GS(keyName(n.property))})`;
      return n.computed ? `GetI(${expr(n.object)}, ${expr(n.property)})` : `Get(${expr(n.object)}, ${GS(keyName(n.property))})`;
    case "CallExpression": {
      const c = n.callee;
      if (c.type === "Super") return `SuperCall(super_, this, ${ctx && ctx.fieldsVar ? ctx.fieldsVar : "fields_"}${comma(args(n.arguments))})`;
      if (c.type === "MemberExpression") {
        if (c.object.type === "Super") return `CallThis(SuperGet(super_, this, ${GS(keyName(c.property))}), this${comma(args(n.arguments))})`;
        return c.computed ? `CallI(${expr(c.object)}, ${expr(c.property)}${comma(args(n.arguments))})` : `CallM(${expr(c.object)}, ${GS(keyName(c.property))}${comma(args(n.arguments))})`;
      }
      if (c.type === "Identifier" && c.name === "__publicField") return `DefField(${args(n.arguments)})`;
      return `Call(${expr(c)}${comma(args(n.arguments))})`;
    }
    case "NewExpression": return `New(${expr(n.callee)}${comma(args(n.arguments))})`;
    case "MetaProperty": case "ImportExpression": case "TaggedTemplateExpression": bad(n);
    case "ChainExpression": return expr(n.expression);
    default: bad(n);
  }
}
// ref evaluates the parts of an assignment target once: [get expression, value -> statement]
function ref(t) {
  if (t.type === "Identifier") {
    if (!bound(t.name)) bad(t, "assignment to unbound " + t.name);
    return [V(t.name), (v) => `${V(t.name)} = ${v}`];
  }
  if (t.type === "MemberExpression") {
    const o = tmp("o");
    emit(`${o} := V(${expr(t.object)})`);
    if (t.computed) {
      const k = tmp("k");
      emit(`${k} := V(${expr(t.property)})`);
      return [`GetI(${o}, ${k})`, (v) => `PutI(${o}, ${k}, ${v})`];
    }
    const k = GS(keyName(t.property));
    return [`Get(${o}, ${k})`, (v) => `Put(${o}, ${k}, ${v})`];
  }
  bad(t);
}
function assignExpr(n) {
  const op = n.operator;
  if (op === "=") {
    if (n.left.type === "Identifier") return fnBlock(() => { const t = tmp(); emit(`${t} := V(${expr(n.right, n.left.name)})`); emit(assignTo(n.left, t)); emit(`return ${t}`); });
    if (n.left.type === "MemberExpression") {
      return fnBlock(() => { const [, put] = ref(n.left); const t = tmp(); emit(`${t} := V(${expr(n.right)})`); emit(put(t)); emit(`return ${t}`); });
    }
    return fnBlock(() => { const t = tmp(); emit(`${t} := V(${expr(n.right)})`); bindPat(n.left, t); emit(`return ${t}`); });
  }
  return fnBlock(() => {
    const [get, put] = ref(n.left);
    if (op === "||=" || op === "&&=" || op === "??=") {
      const t = tmp();
      emit(`${t} := V(${get})`);
      emit(`if ${op === "||=" ? `!Truthy(${t})` : op === "&&=" ? `Truthy(${t})` : `Nullish(${t})`} {`);
      emit(`${t} = ${expr(n.right)}`); emit(put(t)); emit("}"); emit(`return ${t}`);
      return;
    }
    const t = tmp();
    emit(`${t} := ${BIN[op.slice(0, -1)] || bad(n)}(${get}, ${expr(n.right)})`);
    emit(put(t)); emit(`return ${t}`);
  });
}
function exprStmt(n) {
  switch (n.type) {
    case "AssignmentExpression":
      if (n.operator === "=") {
        if (n.left.type === "Identifier") { emit(assignTo(n.left, expr(n.right, n.left.name))); return; }
        if (n.left.type === "MemberExpression") {
          if (n.left.object.type === "Super") bad(n);
          emit(assignTo(n.left, expr(n.right))); return;
        }
        const t = tmp(); emit(`${t} := V(${expr(n.right)})`); bindPat(n.left, t); return;
      }
      if (BIN[n.operator.slice(0, -1)]) {
        emit("{"); ind++;
        const [get, put] = ref(n.left);
        emit(put(`${BIN[n.operator.slice(0, -1)]}(${get}, ${expr(n.right)})`));
        ind--; emit("}"); return;
      }
      break;
    case "UpdateExpression": {
      emit("{"); ind++;
      const [get, put] = ref(n.argument);
      emit(put(`${n.operator === "++" ? "Inc" : "Dec"}(ToNumeric(${get}))`));
      ind--; emit("}"); return;
    }
    case "LogicalExpression":
      if (n.operator !== "??") {
        emit(`if ${n.operator === "||" ? "!" : ""}${cond(n.left)} {`); ind++; exprStmt(n.right); ind--; emit("}"); return;
      }
      break;
    case "ConditionalExpression":
      emit(`if ${cond(n.test)} {`); ind++; exprStmt(n.consequent); ind--; emit("} else {"); ind++; exprStmt(n.alternate); ind--; emit("}"); return;
    case "SequenceExpression": n.expressions.forEach(exprStmt); return;
    case "Identifier": case "Literal": case "ThisExpression": emit(`_ = V(${expr(n)})`); return;
  }
  emit(`_ = V(${expr(n)})`);
}

// ---- classes
function classExpr(n, name) {
  const cname = (n.id && n.id.name) || name || "";
  const save = ctx;
  const isThis = true;
  const names = n.id ? [n.id.name] : [];
  const r = withScope(names, () => {
    const lines = captured(() => {
      emit(`super_ := V(${n.superClass ? expr(n.superClass) : "nil"})`);
      emit(`_ = super_`);
      emit(`cls := NewClass(${GS(cname)}, super_)`);
      if (n.id) { emit(`var ${V(n.id.name)} V = cls`); emit(`_ = ${V(n.id.name)}`); }
      // fields
      const outer = className;
      className = cname || "";
      const fields = n.body.body.filter((m) => m.type === "PropertyDefinition" && !m.static);
      emit(`fields_ := func(this V) {`); ind++;
      ctx = { labels: [], tries: [] };
      emit("_ = this");
      for (const f of fields) {
        const k = f.computed ? `Key(${expr(f.key)})` : GS(keyName(f.key));
        emit(`PutOwn(this, ${k}, ${f.value ? expr(f.value, f.key.name) : "nil"})`);
      }
      ind--; emit("}");
      emit("_ = fields_");
      let hasCtor = false;
      for (const m of n.body.body) {
        if (m.type !== "MethodDefinition") continue;
        const k = m.computed ? `Key(${expr(m.key)})` : GS(keyName(m.key));
        if (m.kind === "constructor") {
          hasCtor = true;
          emit(`SetCtor(cls, ${fnExpr(m.value, cname, { prologue: n.superClass ? null : () => emit("fields_(this)") })})`);
        } else if (m.kind === "get") emit(`SetGetter(cls, ${m.static}, ${k}, ${fnExpr(m.value, keyName(m.key))})`);
        else if (m.kind === "set") emit(`SetSetter(cls, ${m.static}, ${k}, ${fnExpr(m.value, keyName(m.key))})`);
        else emit(`SetMethod(cls, ${m.static}, ${k}, ${fnExpr(m.value, m.computed ? "" : keyName(m.key))})`);
      }
      if (!hasCtor) emit(`DefaultCtor(cls, super_, fields_)`);
      emit(`{ this := V(cls); _ = this`); ind++;
      for (const m of n.body.body) {
        if (m.type === "PropertyDefinition" && m.static) emit(`PutOwn(cls, ${m.computed ? `Key(${expr(m.key)})` : GS(keyName(m.key))}, ${m.value ? expr(m.value, m.key.name) : "nil"})`);
        if (m.type === "StaticBlock") emit(`_ = CallThis(${fnExpr({ type: "FunctionExpression", params: [], body: { type: "BlockStatement", body: m.body }, loc: m.loc, start: m.start })}, cls)`);
      }
      ind--; emit("}");
      emit("return cls");
      className = outer;
    });
    return `func() V {\n${lines.join("\n")}\n}()`;
  });
  ctx = save;
  return r;
}

// ---- statements
function block(body) {
  const lex = lexNames(body);
  withScope(lex, () => {
    for (const x of lex) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
    hoistFns(body);
    for (const s of body) stmt(s);
  });
}
function scoped(n) { // a statement as the body of something
  if (n.type === "BlockStatement") block(n.body);
  else block([n]);
}
function ret(v) {
  const t = ctx.tries[ctx.tries.length - 1];
  if (t) { t.ret = true; emit(`return 1, ${v}`); } else emit(`return ${v}`);
}
function jump(kind, label, n) {
  // find the target
  let i = ctx.labels.length - 1;
  for (; i >= 0; i--) {
    const l = ctx.labels[i];
    if (label ? l.js.includes(label) : kind === "continue" ? l.loop : l.loop || l.sw) break;
  }
  if (i < 0) bad(n, "jump target");
  const l = ctx.labels[i];
  const t = ctx.tries[ctx.tries.length - 1];
  if (t && i < t.base) { // leaves a try: pass it out
    let code = t.jumps.findIndex((j) => j.kind === kind && j.target === l);
    if (code < 0) { code = t.jumps.length; t.jumps.push({ kind, target: l }); }
    emit(`return ${code + 2}, nil`);
    return;
  }
  if (kind === "continue") l.cont = true; else l.brk = true;
  emit(`${kind === "continue" ? "continue" : "break"} ${l.go}`);
}
function passJump(j) {
  const t = ctx.tries[ctx.tries.length - 1];
  const i = ctx.labels.indexOf(j.target);
  if (t && i < t.base) {
    let code = t.jumps.findIndex((k) => k.kind === j.kind && k.target === j.target);
    if (code < 0) { code = t.jumps.length; t.jumps.push(j); }
    emit(`return ${code + 2}, nil`);
    return;
  }
  if (j.kind === "continue") j.target.cont = true; else j.target.brk = true;
  emit(`${j.kind} ${j.target.go}`);
}
function loopOut(labels, opts, f) {
  const l = { js: labels, go: tmp("L"), ...opts };
  ctx.labels.push(l);
  const lines = captured(f);
  ctx.labels.pop();
  if (l.brk || l.cont) out.push(`${l.go}:`);
  for (const x of lines) out.push("\t".repeat(ind - 1) + x);
}
function stmt(n, labels = []) {
  switch (n.type) {
    case "EmptyStatement": case "DebuggerStatement": return;
    case "ExpressionStatement": exprStmt(n.expression); return;
    case "FunctionDeclaration": return; // hoisted
    case "ClassDeclaration": emit(`${V(n.id.name)} = ${classExpr(n, n.id.name)}`); return;
    case "VariableDeclaration":
      for (const d of n.declarations) {
        if (!d.init) { if (n.kind !== "var") emit(`${V(d.id.name)} = nil`); continue; }
        bindPat(d.id, expr(d.init, d.id.name));
      }
      return;
    case "BlockStatement":
      if (labels.length) { loopOut(labels, { sw: false, loop: false }, () => { emit("for {"); ind++; block(n.body); emit("break"); ind--; emit("}"); }); return; }
      emit("{"); ind++; block(n.body); ind--; emit("}"); return;
    case "IfStatement":
      emit(`if ${cond(n.test)} {`); ind++; scoped(n.consequent); ind--;
      if (n.alternate) { emit("} else {"); ind++; scoped(n.alternate); ind--; }
      emit("}"); return;
    case "ReturnStatement": ret(n.argument ? expr(n.argument) : "nil"); return;
    case "ThrowStatement": emit(`ThrowV(${expr(n.argument)})`); return;
    case "LabeledStatement": stmt(n.body, [...labels, n.label.name]); return;
    case "BreakStatement": jump("break", n.label && n.label.name, n); return;
    case "ContinueStatement": jump("continue", n.label && n.label.name, n); return;
    case "WhileStatement":
      loopOut(labels, { loop: true }, () => { emit(`for ${cond(n.test)} {`); ind++; scoped(n.body); ind--; emit("}"); });
      return;
    case "DoWhileStatement": {
      const f = tmp("first");
      loopOut(labels, { loop: true }, () => { emit(`for ${f} := true; ${f} || ${cond(n.test)}; ${f} = false {`); ind++; scoped(n.body); ind--; emit("}"); });
      return;
    }
    case "ForStatement": {
      const decl = n.init && n.init.type === "VariableDeclaration" && n.init.kind !== "var" ? n.init : null;
      const names = decl ? decl.declarations.flatMap((d) => patNames(d.id)) : [];
      emit("{"); ind++;
      withScope(names, () => {
        if (decl) {
          // one variable per iteration
          const outer = names.map((x) => tmp("it"));
          for (const x of names) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
          stmt(decl);
          names.forEach((x, i) => { emit(`${outer[i]} := ${V(x)}`); });
          const first = tmp("first");
          loopOut(labels, { loop: true }, () => {
            emit(`for ${first} := true; ; ${first} = false {`); ind++;
            names.forEach((x, i) => { emit(`${V(x)} := ${outer[i]}`); emit(`_ = ${V(x)}`); });
            if (n.update) { emit(`if !${first} {`); ind++; exprStmt(n.update); ind--; emit("}"); } else emit(`_ = ${first}`);
            if (n.test) { emit(`if !${cond(n.test)} { break }`); }
            // the body may continue or be left by panics only; the copy back happens through a closure-free defer
            const bodyLabel = { js: [], go: tmp("B") };
            const cur = ctx.labels[ctx.labels.length - 1];
            const inner = captured(() => { scoped(n.body); });
            // copy back at every continue: rewrite 'continue <go>' of this loop into copies first
            const back = names.map((x, i) => `${outer[i]} = ${V(x)}`).join("; ");
            for (const x of inner) {
              const m = x.match(/^(\t*)continue (\S+)$/);
              if (m && m[2] === cur.go) out.push("\t".repeat(ind) + m[1] + `${back}; continue ${cur.go}`);
              else out.push("\t".repeat(ind - 1) + x);
            }
            emit(back);
            ind--; emit("}");
          });
        } else {
          if (n.init) { if (n.init.type === "VariableDeclaration") stmt(n.init); else exprStmt(n.init); }
          const first = tmp("first");
          loopOut(labels, { loop: true }, () => {
            emit(`for ${first} := true; ; ${first} = false {`); ind++;
            if (n.update) { emit(`if !${first} {`); ind++; exprStmt(n.update); ind--; emit("}"); } else emit(`_ = ${first}`);
            if (n.test) emit(`if !${cond(n.test)} { break }`);
            scoped(n.body);
            ind--; emit("}");
          });
        }
      });
      ind--; emit("}");
      return;
    }
    case "ForOfStatement": case "ForInStatement": {
      const it = tmp("it");
      emit("{"); ind++;
      emit(`${it} := ${n.type === "ForInStatement" ? "IterKeys" : n.await ? "IterAwait" : "Iter"}(${expr(n.right)})`);
      loopOut(labels, { loop: true }, () => {
        emit(`for ${it}.Next() {`); ind++;
        if (n.left.type === "VariableDeclaration") {
          const names = n.left.kind === "var" ? [] : patNames(n.left.declarations[0].id);
          withScope(names, () => {
            for (const x of names) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
            bindPat(n.left.declarations[0].id, `${it}.Val`);
            emit("{"); ind++; scoped(n.body); ind--; emit("}");
          });
        } else { bindPat(n.left, `${it}.Val`); scoped(n.body); }
        ind--; emit("}");
      });
      ind--; emit("}");
      return;
    }
    case "SwitchStatement": {
      const d = tmp("d"), k = tmp("k");
      const body = n.cases.flatMap((c) => c.consequent);
      const lex = lexNames(body);
      emit("{"); ind++;
      emit(`${d} := V(${expr(n.discriminant)})`);
      emit(`_ = ${d}`);
      withScope(lex, () => {
        for (const x of lex) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
        let def = n.cases.findIndex((c) => !c.test);
        if (def < 0) def = n.cases.length;
        emit(`${k} := ${def}`);
        let first = true;
        n.cases.forEach((c, i) => {
          if (!c.test) return;
          emit(`${first ? "" : "} else "}if SEq(${d}, ${expr(c.test)}) {`); first = false;
          ind++; emit(`${k} = ${i}`); ind--;
        });
        if (!first) emit("}");
        hoistFns(body);
        loopOut(labels, { sw: true }, () => {
          emit("for {"); ind++;
          n.cases.forEach((c, i) => {
            if (!c.consequent.length) return;
            emit(`if ${k} <= ${i} {`); ind++;
            for (const s of c.consequent) stmt(s);
            ind--; emit("}");
          });
          emit("break"); ind--; emit("}");
        });
      });
      ind--; emit("}");
      return;
    }
    case "TryStatement": {
      const part = (f) => {
        const t = { jumps: rec.jumps, base: ctx.labels.length, ret: false };
        ctx.tries.push(t);
        const lines = captured(f);
        ctx.tries.pop();
        if (t.ret) rec.ret = true;
        return lines;
      };
      const rec = { jumps: [], ret: false };
      const b = part(() => { block(n.block.body); emit("return 0, nil"); });
      const h = n.handler && part(() => {
        const names = n.handler.param ? patNames(n.handler.param) : [];
        withScope(names, () => {
          for (const x of names) { emit(`var ${V(x)} V`); emit(`_ = ${V(x)}`); }
          if (n.handler.param) bindPat(n.handler.param, "exc_");
          block(n.handler.body.body);
        });
        emit("return 0, nil");
      });
      const f = n.finalizer && part(() => { block(n.finalizer.body); emit("return 0, nil"); });
      const c = tmp("c"), r = tmp("r");
      emit(`${c}, ${r} := Try(func() (int, V) {`);
      out.push(...b);
      emit(h ? "}, func(exc_ V) (int, V) {\n_ = exc_" : "}, nil, ");
      if (h) { out.push(...h); emit("}, "); }
      if (f) { out[out.length - 1] += "func() (int, V) {"; out.push(...f); emit("})"); } else out[out.length - 1] += "nil)";
      emit(`_, _ = ${c}, ${r}`);
      if (rec.ret) { emit(`if ${c} == 1 {`); ind++; ret(r); ind--; emit("}"); }
      rec.jumps.forEach((j, i) => { emit(`if ${c} == ${i + 2} {`); ind++; passJump(j); ind--; emit("}"); });
      return;
    }
    case "ExportNamedDeclaration":
      if (n.declaration) stmt(n.declaration);
      return;
    default: bad(n);
  }
}

// ---- the module
const top = new Set([...varNames(ast.body), ...lexNames(ast.body)]);
scopes = [top];
ctx = { labels: [], tries: [] };
const exportsList = [];
for (const s of ast.body) {
  if (s.type === "ExportNamedDeclaration") {
    if (s.declaration) for (const x of s.declaration.declarations ? s.declaration.declarations.flatMap((d) => patNames(d.id)) : [s.declaration.id.name]) exportsList.push([x, x]);
    for (const sp of s.specifiers) exportsList.push([sp.exported.name || sp.exported.value, sp.local.name]);
  }
}
try {
  const body = captured(() => {
    emit("var this V"); emit("_ = this");
    hoistFns(ast.body);
    for (const s of ast.body) if (s.type !== "ImportDeclaration") stmt(s); else bad(s);
  });
  const g = [];
  g.push(`// Code generated by ts2go from the repository's TypeScript. DO NOT EDIT.`, `package ${pkg}`, "", `import . ${JSON.stringify(runtime)}`, "", `// Bundle is the script the native replay runs on node.`, `const Bundle = ${JSON.stringify(outJs)}`, "", `const Why = ""`, "");
  for (const x of top) g.push(`var ${V(x)} V`);
  g.push("", "var done bool", "", "func load() {", "\tif done {", "\t\treturn", "\t}", "\tdone = true");
  g.push(...body, "}", "", "// Export gives an exported value by name.", "func Export(name string) V {", "\tload()", "\tswitch name {");
  for (const [e, l] of exportsList) g.push(`\tcase ${JSON.stringify(e)}:\n\t\treturn ${V(l)}`);
  g.push("\t}", "\tpanic(\"no export \" + name)", "}", "");
  fs.writeFileSync(outGo, g.join("\n"));
} catch (e) {
  if (e instanceof Unsupported) { console.error("ts2go: unsupported " + e.message); process.exit(3); }
  throw e;
}
