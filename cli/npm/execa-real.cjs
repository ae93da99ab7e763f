// The installed execa under the names of newer versions.
const execa = require("/opt/veriftools/node/node_modules/execa");
exports.execa = execa;
exports.execaSync = execa.sync;
exports.default = execa;
