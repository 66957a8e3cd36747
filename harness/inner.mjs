import { Report } from './lib/report.mjs';
import { startMonitor, beat } from './lib/beat.mjs';
const [id, marker] = process.argv.slice(2);
process.on('unhandledRejection', () => {}); // each driver watches the promises it cares about
const rep = new Report(id);
process.on('uncaughtException', e => { rep.violation('uncaught', 'uncaught exception escaping the library: ' + (e?.stack || e)); });
startMonitor(marker);
let code = 2;
try {
    const mod = await import(`./props/${id}.mjs`);
    await mod.default(rep);
    beat(null);
    code = rep.finish();
} catch (e) { beat(null); console.error(e); console.log(`ERROR in check ${id}: ${String(e?.message).slice(0, 500)}`); code = 2; }
process.exit(code);
