const out: string[] = [];
const log=(...a: any[])=>out.push(a.map(x=>JSON.stringify(x)).join(" "));
export function run(){
log("a-B9".replace(/[^a-z0-9]/gi, ""), "KéÉk".replace(/[^a-zé]/gi,"-"), "KéÉkK".replace(/k/gi,"-"), "KéÉkſ".replace(/[ks]/giu,"-"));
log("a1b2".split(/(\d)/), "".split(/x/), "".split(/x*/), "abc".split(/x*/), "a,b,".split(/,/), "aXbxc".split(/x/i,2));
log("a😀b".replace(/./gu,"x"), "a😀b".replace(/./g,"x"), "a😀b".replace(/[^\x00-\x7f]/gu,"x"), "a😀b".replace(/[^\x00-\x7f]/g,"x"), "a😀b".match(/[\u{1F600}]/u)?.index);
log("x\ny\nz".match(/^y$/m)?.index, "x\ny".replace(/^/gm,"> "), "x\ny".match(/x$/), "aé1٣_".replace(/\p{L}/gu,"L").replace(/\p{N}/gu,"N"), "aé1".replace(/\P{L}/gu,"-"));
const r=/a/y; log(r.test("ba"), r.lastIndex, r.exec("ab"), r.lastIndex, r.exec("ab"), r.lastIndex);
log("ßẞ".replace(/ß/gi,"x"), "\u00e5Å".replace(/\u00e5/gi,"x"), "foo  bar".split(/( )+/), "A1".match(/^(?<l>[a-z])(?<d>\d)$/i)?.groups);
log("bytes 0-1/22".match(/^bytes (\d+)-(\d+)\/(\d+|\*)$/), /^\s*$/.test(" \t"), "ABC".replace(/\W/gi,"x"), "a-b".replace(/\W/gi,"x"), "aAzZ".replace(/[A-C]/gi,"*"), "_".replace(/[^\w]/gi,"*"));
log("ab".replace(/(?:)/g,"-"), "😀".replace(/(?:)/gu,"-").length);
return out.join("\n"); }
