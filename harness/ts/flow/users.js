// What the user of the generated code writes: handlers, given by the entries.
exports.U = {};
