// Rules over the syntax tree of a node engine script. Nothing of the script is run.
"use strict";
const [ts_path, file, marker] = process.argv.slice(2);
const ts = require(ts_path);
const src = require("fs").readFileSync(file, "utf8");
const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
const K = ts.SyntaxKind, obligations = [], findings = [];
const line = n => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
const bad = (rule, n, what) => findings.push({rule, line: n ? line(n) : 1, what});
const all = [];
(function walk(n) { all.push(n); ts.forEachChild(n, walk); })(sf);
const text = n => n.getText(sf).replace(/\s+/g, " ");
const parents = (n) => { const o = []; while (n.parent) { n = n.parent; o.push(n); } return o; };
const calls = all.filter(n => n.kind === K.CallExpression);
const calleeName = c => c.expression.kind === K.PropertyAccessExpression ? c.expression.name.text : c.expression.kind === K.Identifier ? c.expression.text : "";
const decl = {};   // variable -> its initialisers / assigned values
for (const n of all) {
  if (n.kind === K.VariableDeclaration && n.initializer && n.name.kind === K.Identifier) (decl[n.name.text] = decl[n.name.text] || []).push(n.initializer);
  if (n.kind === K.BinaryExpression && n.operatorToken.kind === K.EqualsToken && n.left.kind === K.Identifier) (decl[n.left.text] = decl[n.left.text] || []).push(n.right);
}
const strOf = (n, d = 0) => {
  if (d > 4 || !n) return null;
  if (n.kind === K.StringLiteral || n.kind === K.NoSubstitutionTemplateLiteral) return n.text;
  if (n.kind === K.Identifier && decl[n.text] && decl[n.text].length === 1) return strOf(decl[n.text][0], d + 1);
  if (n.kind === K.BinaryExpression && n.operatorToken.kind === K.PlusToken) { const a = strOf(n.left, d + 1), b = strOf(n.right, d + 1); return a !== null && b !== null ? a + b : null; }
  return null;
};
const isFn = n => [K.FunctionExpression, K.FunctionDeclaration, K.ArrowFunction, K.MethodDeclaration].includes(n.kind);
const inFn = n => parents(n).find(isFn);

// 1. no evaluation in the engine's own context
for (const c of calls) {
  const nm = calleeName(c);
  if (["runInThisContext", "eval", "Function", "compileFunction"].includes(nm) || (nm === "call" && text(c).startsWith("eval"))) bad("js-own-context", c, text(c).slice(0, 60) + " evaluates the expression among the engine's own objects");
}
for (const n of all) if (n.kind === K.NewExpression && n.expression.kind === K.Identifier && n.expression.text === "Function") bad("js-own-context", n, "new Function evaluates among the engine's own objects");
obligations.push("no runInThisContext, eval or Function");

// 2. the context
const runs = calls.filter(c => calleeName(c) === "runInNewContext" || calleeName(c) === "runInContext");
const HOST = new Set(["require", "process", "global", "globalThis", "module", "exports", "Buffer", "__dirname", "__filename"]);
const literalContext = (n, d = 0) => {
  // "fresh": an object literal (or a call building one) evaluated per run; "shared": one object for several runs
  if (!n) return "fresh";
  if (n.kind === K.ParenthesizedExpression) return literalContext(n.expression, d);
  if (n.kind === K.ObjectLiteralExpression) return "fresh";
  if (n.kind === K.CallExpression) return "fresh";
  if (n.kind === K.Identifier && decl[n.text]) {
    const handler = inFn(n);
    const local = all.some(v => v.kind === K.VariableDeclaration && v.name.kind === K.Identifier && v.name.text === n.text && inFn(v) && inFn(v) === handler);
    return local ? "fresh" : "shared";
  }
  return "?";
};
const saved = new Set();  // variables that hold the result of the context script
for (const n of all) if (n.kind === K.BinaryExpression && n.operatorToken.kind === K.EqualsToken && n.left.kind === K.Identifier && runs.includes(n.right)) saved.add(n.left.text);
for (const c of runs) {
  const ctx = c.arguments[1];
  obligations.push("line " + line(c) + ": context " + (ctx ? text(ctx).slice(0, 40) : "(none)"));
  const kind = literalContext(ctx);
  const withContext = ctx && ctx.kind === K.Identifier && saved.has(ctx.text);
  if (kind === "shared" && !withContext) bad("js-shared-context", c, "expressions share the context object " + text(ctx) + ", so one evaluation changes the next");
  if (ctx) for (const o of (function sub(n, out) { out.push(n); ts.forEachChild(n, x => { sub(x, out); }); return out; })(ctx, [])) {
    if (o.kind === K.Identifier && HOST.has(o.text) && !(o.parent.kind === K.PropertyAssignment && o.parent.name === o && !HOST.has(o.text))) bad("js-host-object", c, "the engine's " + o.text + " is handed to the expression");
    if (o.kind === K.ThisKeyword || o.kind === K.SpreadAssignment) bad("js-host-object", c, "the engine's own objects are handed to the expression");
  }
}
if (!runs.length) bad("js-no-context", null, "no runInNewContext: the expression is not evaluated in a context of its own");

// 3. result: JSON + newline to stdout
const writes = calls.filter(c => /stdout\.write$/.test(text(c.expression)) || text(c.expression) === "console.log");
const results = calls.filter(c => text(c.expression) === "JSON.stringify");
obligations.push("JSON.stringify calls: " + results.length);
if (!results.length) bad("js-result", null, "the value is not written as JSON");

// 4. the end marker, on both streams, whatever happened before
const stream = c => {
  const t = text(c.expression);
  return t === "console.log" || /stdout\.write$/.test(t) ? "stdout" : t === "console.error" || /stderr\.write$/.test(t) || t === "console.warn" ? "stderr" : null;
};
const marks = {stdout: [], stderr: []};
for (const c of calls) {
  const s = stream(c);
  if (!s || !c.arguments.length) continue;
  const v = strOf(c.arguments[0]);
  if (v === null) continue;
  const nl = /write$/.test(text(c.expression)) ? "" : "\n";
  if (v + nl === marker + "\n") marks[s].push(c);
}
for (const s of ["stdout", "stderr"]) {
  obligations.push(s + ": end marker " + marks[s].map(line).join(","));
  if (!marks[s].length) { bad("js-marker", null, "the end marker that sandboxjs.py waits for is not written to " + s); continue; }
  const ok = marks[s].some(c => {
    for (let n = c, p = c.parent; p && !isFn(p); n = p, p = p.parent) {
      if (p.kind === K.TryStatement && p.tryBlock === n) return false;
      if (p.kind === K.CatchClause) return false;
    }
    return true;
  });
  const both = marks[s].some(c => parents(c).some(p => p.kind === K.CatchClause)) && marks[s].some(c => parents(c).some((p, i, a) => p.kind === K.Block && a[i + 1] && a[i + 1].kind === K.TryStatement && a[i + 1].tryBlock === p));
  if (!ok && !both) bad("js-marker-path", marks[s][0], "the end marker is not written to " + s + " when the evaluation " + (parents(marks[s][0]).some(p => p.kind === K.CatchClause) ? "succeeds" : "fails"));
}

// 5. every run is in a try whose handler reports on stderr and goes on
for (const c of runs) {
  const t = parents(c).find(p => p.kind === K.TryStatement);
  if (!t) { bad("js-uncaught", c, "an exception of the expression ends the engine"); continue; }
  const h = t.catchClause;
  if (!h) { bad("js-uncaught", c, "an exception of the expression ends the engine"); continue; }
  const inside = []; (function sub(n) { inside.push(n); ts.forEachChild(n, sub); })(h.block);
  obligations.push("line " + line(t) + ": handler");
  const v = h.variableDeclaration && h.variableDeclaration.name.getText(sf);
  const rep = inside.find(n => n.kind === K.CallExpression && stream(n) === "stderr" && n.arguments.some(a => v && text(a).includes(v)));
  const viaHelper = inside.find(n => n.kind === K.CallExpression && stream(n) === null && n.arguments.some(a => v && text(a).includes(v)));
  if (!rep && !viaHelper) bad("js-error-lost", h, "an exception of the expression is not reported on stderr");
  for (const n of inside) {
    if (n.kind === K.ThrowStatement) bad("js-uncaught", n, "the handler throws again, so the engine ends without the end marker");
    if (n.kind === K.ReturnStatement && inFn(n) === inFn(h)) bad("js-marker-path", n, "the handler returns before the end marker is written");
    if (n.kind === K.CallExpression && text(n.expression) === "process.exit") bad("js-marker-path", n, "the handler ends the engine before the end marker is written");
  }
}

// 6. end of input ends the engine
const ends = calls.filter(c => calleeName(c) === "on" && /stdin/.test(text(c.expression)) && c.arguments[0] && ["end", "close"].includes(strOf(c.arguments[0])));
obligations.push("end handlers: " + ends.length);
if (!ends.some(c => /exit/.test(text(c.arguments[1] || c)))) bad("js-no-exit", null, "the engine does not end when its input ends");
console.log(JSON.stringify({obligations, findings}));
