// host.js WASM_EXEC MODULE IN OUT: runs the playground module with a recording
// page. IN holds lines of UTF-16 code units, one query each; OUT gets a line
// with the result of each.
const fs = require("fs");
require(process.argv[2]);
const [, , , moduleFile, inFile, outFile] = process.argv;
let notified = 0;
const go = new Go();
globalThis.notifyBrowser = () => {
  notified++;
  setTimeout(run, 0);
};
function run() {
  const out = [];
  let state = "done";
  for (const line of fs.readFileSync(inFile, "utf8").split("\n")) {
    if (line === "") continue;
    let query = "";
    for (const unit of JSON.parse(line)) query += String.fromCharCode(unit);
    let result;
    try {
      result = { value: parseAQL(query) };
    } catch (e) {
      result = { threw: String(e) };
    }
    out.push(JSON.stringify(result));
    if (result.threw || result.value === undefined) break;
  }
  out.push(JSON.stringify({ notified }));
  fs.writeFileSync(outFile, out.join("\n") + "\n");
  process.exit(0);
}
WebAssembly.instantiate(fs.readFileSync(moduleFile), go.importObject)
  .then((r) => go.run(r.instance))
  .then(() => {
    fs.writeFileSync(outFile, JSON.stringify({ threw: "the module ended" }) + "\n");
    process.exit(0);
  });
