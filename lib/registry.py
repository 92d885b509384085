import checks_coll as coll
import checks_sess as sess
import checks_man as man
import checks_time as tim
import checks_iter as itr
import checks_dmg as dmg
import checks_render as ren
CHECKS = {"C01": sess.c01, "C02": sess.c02, "C03": coll.c03, "C04": sess.c04, "C05": coll.c05, "C06": coll.c06,
          "C07": man.c07, "C08": man.c08, "C09": man.c09,
          "C10": sess.c10, "C11": sess.c11, "C12": sess.c12, "C13": dmg.c13, "C14": tim.c14, "C15": sess.c15, "C16": ren.c16, "C17": itr.c17, "C18": sess.c18}
REPLAY = {"listing": lambda ctx, item: coll.run_listings(ctx, ctx.prop, [item]),
          "session": lambda ctx, item: sess.run_sessions(ctx, ctx.prop, [sess.unpack_item(item)]),
          "manifest": lambda ctx, item: man.run_manifests(ctx, [man.unpack(item)]),
          "damage": lambda ctx, item: dmg.run_damaged(ctx, [dmg.unpackd(item)]),
          "render": lambda ctx, item: ren.run_render(ctx, [sess.unpack_item(item)]),
          "time": lambda ctx, item: tim.run_times(ctx, [item])}
