// tsdump.js DIR ENTRY...: syntax trees of the modules reachable from ENTRY, as JSON.
const ts = require("typescript");
const fs = require("fs");
const path = require("path");
const names = {};
for (const k of Object.keys(ts.SyntaxKind)) {
  const v = ts.SyntaxKind[k];
  if (typeof v !== "number") continue;
  if (names[v] === undefined || /^(First|Last)/.test(names[v])) names[v] = k;
}
const skip = new Set(["parent", "original", "type", "typeParameters", "typeArguments", "typeExpression", "jsDoc", "symbol", "locals", "localSymbol",
  "nextContainer", "endOfFileToken", "flowNode", "endFlowNode", "returnFlowNode", "emitNode", "exclamationToken", "assertClause", "attributes", "modifierFlagsCache"]);
function isNode(x) { return x && typeof x === "object" && typeof x.kind === "number" && typeof x.pos === "number"; }
function isArr(x) { return Array.isArray(x) && x.every(isNode); }
function dump(n, sf) {
  const o = { k: names[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1 };
  if (typeof n.text === "string" && n.kind !== ts.SyntaxKind.SourceFile) o.text = n.text;
  if (n.kind === ts.SyntaxKind.NumericLiteral) o.num = Number(n.text);
  if (typeof n.escapedText === "string") o.text = ts.unescapeLeadingUnderscores(n.escapedText);
  if (typeof n.operator === "number") o.op = names[n.operator];
  if (typeof n.token === "number") o.token = names[n.token];
  if (n.kind === ts.SyntaxKind.VariableDeclarationList) o.decl = n.flags & ts.NodeFlags.Const ? "const" : n.flags & ts.NodeFlags.Let ? "let" : "var";
  if (n.isTypeOnly) o.typeOnly = true;
  if (n.isExportEquals) o.exportEquals = true;
  const c = {};
  for (const k of Object.keys(n)) {
    if (skip.has(k)) continue;
    const v = n[k];
    if (isNode(v)) c[k] = [dump(v, sf)];
    else if (isArr(v)) { c[k] = v.map((x) => dump(x, sf)); }
  }
  if (Object.keys(c).length) o.c = c;
  return o;
}
const dir = process.argv[2];
const out = {}, errors = [];
function load(file) {
  const rel = path.relative(dir, file);
  if (out[rel]) return;
  const src = fs.readFileSync(file, "utf8");
  const sf = ts.createSourceFile(file, src, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  if (sf.parseDiagnostics.length) errors.push(rel + ": " + ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, " "));
  const m = (out[rel] = { tree: dump(sf, sf), imports: {} });
  for (const st of sf.statements) {
    const s = st.moduleSpecifier && st.moduleSpecifier.text;
    if (!s || !s.startsWith(".")) continue;
    const base = path.resolve(path.dirname(file), s);
    const f = [base + ".ts", path.join(base, "index.ts"), base.replace(/\.js$/, ".ts"), base].find((x) => fs.existsSync(x) && fs.statSync(x).isFile());
    if (!f) { errors.push(rel + ": module " + s + " not found"); continue; }
    m.imports[s] = path.relative(dir, f);
    load(f);
  }
}
for (const e of process.argv.slice(3)) load(path.resolve(dir, e));
process.stdout.write(JSON.stringify({ modules: out, errors }));
