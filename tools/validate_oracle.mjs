// Compares the oracle's segmentation with ICU's (Intl.Segmenter; needs a Node whose ICU has Unicode 17).
import readline from 'node:readline'
if (process.versions.unicode !== '17.0') { console.log('needs Unicode 17'); process.exit(2) }
const seg = new Intl.Segmenter('en', {granularity: 'grapheme'})
let n = 0, bad = 0
for await (const line of readline.createInterface({input: process.stdin})) {
  const want = line.split('|').map(s => String.fromCodePoint(...s.split(' ').map(x => parseInt(x, 16))))
  const got = [...seg.segment(want.join(''))].map(x => x.segment)
  n++
  if (got.length !== want.length || got.some((g, i) => g !== want[i])) {
    if (bad++ < 20) console.log(line, '\n   ICU:', got.map(g => [...g].map(c => c.codePointAt(0).toString(16)).join(' ')).join('|'))
  }
}
console.log(`${n} texts, ${bad} differ`)
process.exit(bad ? 1 : 0)
