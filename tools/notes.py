NOTE.update({
 'C01': 'All bins counts, limits (either order), guesses, scalings and search vectors; clip and shrink mode.',
 'C02': 'All pulses of any length; clip and shrink mode.',
 'C03': 'All pulses of any length; default chain after an arbitrary earlier evaluation, and every configured chain of up to three steps.',
})
