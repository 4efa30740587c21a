module.exports = require('./cliworld.cjs').Conf
