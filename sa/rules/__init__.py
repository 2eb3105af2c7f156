from . import toss, pkt, handle, gen, seenby, areafix, fail, config, outbound, bounds, fate, export, runs, memory, header, maint, packet, address, nodelist, settings, apart, requests
RULES = {}
for m in (toss, pkt, handle, gen, seenby, areafix, fail, config, outbound, bounds, fate, export, runs, memory, header, maint, packet, address, nodelist, settings, apart, requests):
    RULES.update(m.RULES)
