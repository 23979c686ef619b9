// "MC" subsystem type: every object records the accesses it receives in Env.
#include "env.h"
#include "LoggingElementBuilderTemplate.h"
#include "FormattedSubsystemObject.h"
#include "MappingContext.h"
#include "Subsystem.h"
#include "SubsystemLibrary.h"
#include "SubsystemObjectFactory.h"
#include "Plugin.h"
#include "InstanceConfigurableElement.h"

enum ContextKey { ECtx, EAmend1, EAmend2, EAmend3 };

class CMCObject : public CFormattedSubsystemObject
{
public:
    CMCObject(const std::string &strMappingValue, CInstanceConfigurableElement *pElement,
              const CMappingContext &context, core::log::Logger &logger)
        : CFormattedSubsystemObject(pElement, logger, strMappingValue, EAmend1, 3, context),
          _env(mcCurrentEnv()), _name(getFormattedMappingValue())
    {
        std::string desc;
        desc = strMappingValue + "|" + getFormattedMappingValue();
        for (int k = ECtx; k <= EAmend3; k++) {
            desc += "|";
            desc += context.iSet(k) ? context.getItem(k) : std::string("-");
        }
        desc += "|" + pElement->getPath() + "|" + std::to_string(getSize());
        if (_env) {
            _env->created.push_back(desc);
            if (!_env->shadow.count(_name)) _env->shadow[_name] = std::string(getSize(), '\0');
        }
    }

protected:
    bool sendToHW(std::string &strError) override
    {
        std::string buf(getSize(), '\0');
        if (!buf.empty()) blackboardRead(&buf[0], buf.size());
        if (_env->hook) _env->hook(_env, "send");
        if (_env->failWrite.count(_name)) {
            _env->log.push_back({'F', _name, buf});
            strError = "MC: write to " + _name + " refused";
            return false;
        }
        _env->log.push_back({'S', _name, buf});
        _env->shadow[_name] = buf;
        return true;
    }
    bool receiveFromHW(std::string &strError) override
    {
        if (_env->hook) _env->hook(_env, "recv");
        if (_env->failRead.count(_name)) {
            _env->log.push_back({'f', _name, ""});
            strError = "MC: read of " + _name + " refused";
            return false;
        }
        std::string buf = _env->shadow[_name];
        buf.resize(getSize());
        _env->log.push_back({'R', _name, buf});
        if (!buf.empty()) blackboardWrite(buf.data(), buf.size());
        return true;
    }

private:
    Env *_env;
    std::string _name;
};

class CMCSubsystem : public CSubsystem
{
public:
    CMCSubsystem(const std::string &strName, core::log::Logger &logger)
        : CSubsystem(strName, logger), _env(mcCurrentEnv())
    {
        addContextMappingKey("Ctx");
        addContextMappingKey("Amend1");
        addContextMappingKey("Amend2");
        addContextMappingKey("Amend3");
        addSubsystemObjectFactory(new TSubsystemObjectFactory<CMCObject>("Obj", 0));
        // An object kind that needs the Ctx key defined by itself or an ancestor
        addSubsystemObjectFactory(new TSubsystemObjectFactory<CMCObject>("CtxObj", 1 << ECtx));
    }
    bool isAlive() const override
    {
        _env->aliveQueries++;
        return !_env->dead.count(getName());
    }
    bool needResync(bool bClear) override
    {
        bool need = _env->restart.count(getName()) != 0;
        if (bClear) _env->restart.erase(getName());
        return need;
    }

private:
    Env *_env;
};

extern "C" void PARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1(CSubsystemLibrary *pSubsystemLibrary,
                                         core::log::Logger &logger)
{
    pSubsystemLibrary->addElementBuilder(
        "MC", new TLoggingElementBuilderTemplate<CMCSubsystem>(logger));
}
