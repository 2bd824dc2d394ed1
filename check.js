#!/usr/bin/env node
'use strict';
// node check.js <property> [--tier quick|thorough] [--seed N] [--replay FILE]
require('./lib/runner.js').main(process.argv.slice(2)).catch((e) => { console.log('INCONCLUSIVE ' + (e && e.stack || e)); process.exit(2); });
