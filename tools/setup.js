'use strict';
// Warms the builds of both variants; every check builds what it needs itself anyway.
const { build } = require('../lib/build.js');
for (const v of ['release', 'checked']) { const b = build(v); console.log(v, b.pkg, b.build_s.toFixed(1) + ' s'); }
