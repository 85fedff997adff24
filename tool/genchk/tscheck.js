// tscheck.js REPO DIR FILE...: type errors of the files, as JSON.
const ts = require("typescript");
const path = require("path");
const [repo, dir, ...files] = process.argv.slice(2);
const fs = require("fs");
const list = files[0] === "-" ? JSON.parse(fs.readFileSync(0, "utf8")) : files;
const cfg = ts.readConfigFile(path.join(repo, "tsconfig.json"), ts.sys.readFile);
const conv = cfg.config ? ts.convertCompilerOptionsFromJson(cfg.config.compilerOptions || {}, repo) : { options: {} };
const options = Object.assign({}, conv.options, {
  noEmit: true, declaration: false, sourceMap: false, types: [], typeRoots: [], skipLibCheck: true, strict: true,
  baseUrl: undefined, paths: { "@loopholelabs/polyglot": [path.join(repo, "index.ts")] }, pathsBasePath: dir,
});
delete options.baseUrl;
const program = ts.createProgram(list.map((f) => path.join(dir, f)), options);
const out = [];
for (const d of ts.getPreEmitDiagnostics(program)) {
  const o = { file: "", line: 0, code: d.code, msg: ts.flattenDiagnosticMessageText(d.messageText, " ") };
  if (d.file) {
    o.file = path.relative(dir, d.file.fileName);
    const p = d.file.getLineAndCharacterOfPosition(d.start);
    o.line = p.line + 1;
    o.text = d.file.text.split("\n")[p.line].trim();
  }
  out.push(o);
}
process.stdout.write(JSON.stringify(out));
