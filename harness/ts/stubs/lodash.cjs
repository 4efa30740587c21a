module.exports = require('./cliworld.cjs')._
