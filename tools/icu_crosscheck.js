// Developer tool (not run by any check): compares the oracle with ICU's grapheme segmenter.
// stdin: lines "hexcp hexcp ... | end end ..." in code points; prints disagreements.
const s = new Intl.Segmenter("en", {granularity: "grapheme"});
const rl = require("readline").createInterface({input: process.stdin});
let n = 0, bad = 0;
rl.on("line", l => {
  const [a, b] = l.split("|");
  const cps = a.trim().split(" ").map(x => parseInt(x, 16));
  const txt = String.fromCodePoint(...cps);
  let ends = [], k = 0;
  for (const g of s.segment(txt)) { k += [...g.segment].length; ends.push(k); }
  n++;
  if (ends.join(" ") !== b.trim()) { bad++; if (bad < 20) console.log("DIFF", a, "oracle", b, "icu", ends.join(" ")); }
});
rl.on("close", () => console.log("icu", process.versions.icu, "unicode", process.versions.unicode, "compared", n, "disagreements", bad));
