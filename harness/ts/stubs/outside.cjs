module.exports = require('./cliworld.cjs').world
